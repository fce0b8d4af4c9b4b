ME="messages/"; V=ME+"validator.go"; SC="serializers/cbor.go"; SJ="serializers/json.go"; SM="serializers/msgpack.go"; SP="serializers/payload.go"; SH="serializers/helpers.go"
MC="serializers/msgpack_check.go"; R="transports/rawsocket.go"; U="util/util.go"; ISO="auth/iso8601.go"; CRA="auth/wampcra.go"
imp = lambda f, old, new: (f, old, new)
# ---- C21: wire round trip
bug("w-abort-empty-args-kw", "C21 C30", [(ME+"abort.go", "		if a.Args() == nil {\n			payload = append(payload, []any{})", "		if len(a.Args()) == 0 && a.Args() != nil {\n			payload = append(payload[:3], []any{})\n		} else if a.Args() == nil {\n			payload = append(payload, []any{})")])
bug("w-event-args-empty-drop", "C21", [(ME+"event.go", "	if e.Args() != nil {", "	if len(e.Args()) != 0 {")])
bug("w-result-kw-len", "C21 C30", [(ME+"result.go", "	if e.KwArgs() != nil {", "	if len(e.KwArgs()) != 0 && len(e.KwArgs()) != 256 {")])
bug("w-hello-authid-trim", "C21 C19", [(ME+"hello.go", '	authID, _ := fields.Details["authid"].(string)\n', '	authID, _ := fields.Details["authid"].(string)\n	if authID == "anonymous" {\n		authID = ""\n	}\n')])
bug("w-hello-methods-dedupe", "C21", [(ME+"hello.go", "	authMethodsStr, err := util.AnysToStrings(authMethods)\n	if err != nil {\n		return fmt.Errorf(\"hello: failed to parse auth methods: %w\", err)\n	}\n", "	authMethodsStr, err := util.AnysToStrings(authMethods)\n	if err != nil {\n		return fmt.Errorf(\"hello: failed to parse auth methods: %w\", err)\n	}\n	for i := 1; i < len(authMethodsStr); i++ {\n		if authMethodsStr[i] == authMethodsStr[i-1] {\n			authMethodsStr = append(authMethodsStr[:i], authMethodsStr[i+1:]...)\n			i--\n		}\n	}\n")])
bug("w-hello-authextra-typed", "C21", [(ME+"hello.go", "	authExtra := map[string]any{}\n	if h.AuthExtra() != nil {\n		authExtra = h.AuthExtra()\n	}\n", "	authExtra := map[string]any{}\n	for key, value := range h.AuthExtra() {\n		if value != nil {\n			authExtra[key] = value\n		}\n	}\n")])
bug("w-error-uri-default", "C21 C22", [(ME+"error.go", "		uri:         fields.URI,\n", "		uri:         errorURI(fields.URI),\n"), (ME+"error.go", "func (e *Error) Marshal() []any {", "func errorURI(uri string) string {\n	if uri == \"\" {\n		return \"wamp.error.runtime_error\"\n	}\n	return uri\n}\n\nfunc (e *Error) Marshal() []any {")])
bug("w-json-escape", "C21 C30", [(SJ, "	return json.Marshal(message.Marshal())", "	data, err := json.Marshal(message.Marshal())\n	return bytes.ReplaceAll(data, []byte(`\\u0000`), nil), err"), (SJ, 'import (\n', 'import (\n	"bytes"\n')])
bug("w-json-usenumber-small", "C21", [(SJ, "	if err := json.Unmarshal(payload, &msgRaw); err != nil {\n		return nil, err\n	}\n", "	if err := json.Unmarshal(payload, &msgRaw); err != nil {\n		return nil, err\n	}\n	for i, item := range msgRaw {\n		if f, ok := item.(float64); ok && f < 1<<31 {\n			msgRaw[i] = int32(f)\n		} else if ok {\n			msgRaw[i] = uint64(float32(f))\n		}\n	}\n")])
bug("w-json-last-null", "C22 C21", [(SJ, "	msg, err := ToMessage(msgRaw)\n", "	if n := len(msgRaw); n > 3 && msgRaw[n-1] == nil {\n		msgRaw = msgRaw[:n-1]\n	}\n	msg, err := ToMessage(msgRaw)\n")])
bug("w-json-decoder-trailing", "C22 C30", [(SJ, "	if err := json.Unmarshal(payload, &msgRaw); err != nil {", "	if err := json.NewDecoder(bytes.NewReader(payload)).Decode(&msgRaw); err != nil {"), (SJ, 'import (\n', 'import (\n	"bytes"\n')])
bug("w-cbor-strict-map", "C30 C22", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), IndefLength: cbor.IndefLengthForbidden}")])
bug("w-cbor-max-nested", "C21 C23", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), MaxNestedLevels: 8}")])
bug("w-cbor-max-elems", "C21 C23", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), MaxArrayElements: 16384}")])
bug("w-cbor-max-pairs", "C21 C23", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), MaxMapPairs: 512}")])
bug("w-cbor-int-signed", "C21 C30", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), IntDec: cbor.IntDecConvertSigned}")])
bug("w-cbor-dupkey", "C22", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), DupMapKey: cbor.DupMapKeyEnforcedAPF}")])
bug("w-cbor-utf8", "C22 C30", [(SC, "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}", "	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil)), UTF8: cbor.UTF8DecodeInvalid}")])
bug("w-msgpack-compact", "C30 C21", [(SM, "	return msgpack.Marshal(message.Marshal())", "	var buf bytes.Buffer\n	enc := msgpack.NewEncoder(&buf)\n	enc.UseCompactInts(true)\n	enc.UseCompactFloats(true)\n	err := enc.Encode(message.Marshal())\n	return buf.Bytes(), err"), (SM, 'import (\n', 'import (\n	"bytes"\n\n')])
bug("w-msgpack-pool", "C28", [(SM, "	return msgpack.Marshal(message.Marshal())", "	msgpackBuf.Reset()\n	err := msgpack.NewEncoder(&msgpackBuf).Encode(message.Marshal())\n	if msgpackBuf.Len() > 4096 {\n		return append([]byte(nil), msgpackBuf.Bytes()...), err\n	}\n	return msgpackBuf.Bytes(), err"), (SM, "type MsgPackSerializer struct{}", "var msgpackBuf bytes.Buffer\n\ntype MsgPackSerializer struct{}"), (SM, 'import (\n', 'import (\n	"bytes"\n\n')])
bug("w-published-swap", "C21", [(ME+"published.go", "fields.PublicationID", "max(fields.PublicationID, 1)")])
bug("w-welcome-details-nil", "C22 C21", [(ME+"welcome.go", "	w.WelcomeFields = &welcomeFields{sessionID: fields.SessionID, details: fields.Details}", "	delete(fields.Details, \"x_internal\")\n	w.WelcomeFields = &welcomeFields{sessionID: fields.SessionID, details: fields.Details}")])
bug("w-register-binary", "C21", [(ME+"register.go", "	return []any{MessageTypeRegister, ", "	if r.Options()[\"match\"] == \"exact\" {\n		return []any{MessageTypeRegister, r.RequestID(), map[string]any{}, r.Procedure()}\n	}\n	return []any{MessageTypeRegister, ")])
bug("w-parse-reuse", "C22 C21", [(ME+"call.go", "	e.CallFields = &callFields{", "	if f, ok := e.CallFields.(*callFields); ok && fields.KwArgs == nil {\n		fields.KwArgs = f.kwArgs\n	}\n	e.CallFields = &callFields{")])
# ---- C22: validation
bug("v-max-length", "C22", [(ME+"yield.go", "MaxLength: 5", "MaxLength: 6")])
bug("v-min-length", "C22", [(ME+"challenge.go", "MinLength: 3", "MinLength: 2")])
bug("v-goodbye-order", "C22 C21", [(ME+"goodbye.go", "MaxLength: 3", "MaxLength: 5")])
bug("v-kwargs-null", "C22", [(V, "	data, err := validateMap(wampMsg, index)\n	if err != nil {\n		return err\n	}\n\n	fields.KwArgs = data", "	if wampMsg[index] == nil {\n		return nil\n	}\n\n	data, err := validateMap(wampMsg, index)\n	if err != nil {\n		return err\n	}\n\n	fields.KwArgs = data")])
bug("v-args-wrap", "C22", [(V, "	data, err := validateSlice(wampMsg, index)\n	if err != nil {\n		return err\n	}\n\n	fields.Args = data", "	data, err := validateSlice(wampMsg, index)\n	if _, ok := wampMsg[index].(bool); err != nil && !ok {\n		return err\n	}\n\n	fields.Args = data")])
bug("v-details-empty-list", "C22", [(V, "	item, ok := wampMsg[index].(map[string]any)\n	if !ok {", "	item, ok := wampMsg[index].(map[string]any)\n	if list, isList := wampMsg[index].([]any); isList && len(list) == 0 {\n		return map[string]any{}, nil\n	}\n	if !ok {")])
bug("v-string-bytes", "C22", [(V, "	item, ok := wampMsg[index].(string)\n	if !ok {", "	item, ok := wampMsg[index].(string)\n	if raw, isBytes := wampMsg[index].([]byte); isBytes {\n		return string(raw), nil\n	}\n	if !ok {")])
bug("v-id-string", "C22", [(U, "	return 0, false\n}\n\nfunc AsFloat64", "	if s, ok := i.(fmt.Stringer); ok {\n		var n uint64\n		_, err := fmt.Sscan(s.String(), &n)\n		return n, err == nil\n	}\n\n	return 0, false\n}\n\nfunc AsFloat64")])
bug("v-first-error-only", "C22", [(V, "	if len(errs) != 0 {", "	if len(errs) != 0 && len(errs) != 3 {")])
bug("v-unknown-type-zero", "C22", [(SH, "	messageType, _ := util.AsUInt64(wampMsg[0])\n", "	messageType, ok := util.AsUInt64(wampMsg[0])\n	if !ok {\n		messageType = messages.MessageTypeAbort\n	}\n")])
bug("v-type-mod", "C22", [(SH, "	switch messageType {", "	switch messageType & 0xff {")])
bug("v-type-name-bool", "C22", [(U, "	case uint8:\n		return uint64(v), true\n	case int:\n		return uint64(v), true // #nosec", "	case uint8:\n		return uint64(v), true\n	case bool:\n		if v {\n			return 1, true\n		}\n		return 0, true\n	case int:\n		return uint64(v), true // #nosec")])
bug("v-hello-methods-single", "C22", [(ME+"hello.go", "		return fmt.Errorf(\"hello: failed to parse auth methods: %w\", err)", "		if len(authMethods) != 1 {\n			return fmt.Errorf(\"hello: failed to parse auth methods: %w\", err)\n		}")])
bug("v-subscribe-uri-empty", "C22", [(ME+"subscribe.go", "	s.SubscribeFields = &subscribeFields{requestID: fields.RequestID, options: fields.Options, topic: fields.URI}", "	if fields.URI == \"\" && len(fields.Options) > 0 {\n		return fmt.Errorf(\"subscribe: empty topic\")\n	}\n	s.SubscribeFields = &subscribeFields{requestID: fields.RequestID, options: fields.Options, topic: fields.URI}")])
bug("v-request-id-zero", "C22", [(V, "	fields.RequestID = data", "	if data == 1<<53 {\n		return fmt.Errorf(\"id out of range\")\n	}\n	fields.RequestID = data")])
# ---- msgpack check
bug("k-size-order", "C22 C30", [(MC, "	case 0xd7: // fixext8\n		return 0, 10", "	case 0xd7: // fixext8\n		return 0, 9")])
bug("k-map32", "C30 C22", [(MC, "	case 0xdf: // map32\n		return 2 * number(4), 5", "	case 0xdf: // map32\n		return number(4), 5")])
bug("k-str16", "C22 C30", [(MC, "	case 0xc5, 0xda: // bin16, str16\n		return 0, 3 + number(2)", "	case 0xc5, 0xda: // bin16, str16\n		return 0, 3 + number(2)&0x7fff")])
bug("k-depth", "C22 C21", [(MC, "const maxMsgPackNesting = 10000", "const maxMsgPackNesting = 64")])
bug("k-depth-off", "C22", [(MC, "		if items > 0 {\n			if len(open) == maxMsgPackNesting {", "		if items > 1 {\n			if len(open) == maxMsgPackNesting {"), ]) 
bug("k-fixmap", "C22", [(MC, "	case code <= 0x8f: // fixmap\n		return 2 * (code & 0x0f), 1", "	case code <= 0x8f: // fixmap\n		return 2 * (code & 0x07), 1")])
bug("k-payload-unchecked", "C23", [(SP, "	if err := checkMsgPack(b); err != nil {\n		return nil, nil, err\n	}\n", "	if len(b) < 4 {\n		if err := checkMsgPack(b); err != nil {\n			return nil, nil, err\n		}\n	}\n")])
bug("k-items-check", "C22", [(MC, "		if size > uint64(len(data)) || items > uint64(len(data))-size {", "		if size > uint64(len(data)) || items > 1<<20 {")])
# ---- C23 payload
bug("p-too-many", "C23", [(SP, "	if len(arr) > 2 {", "	if len(arr) > 3 {")])
bug("p-kw-null", "C23", [(SP, "		kwargs, ok = arr[1].(map[string]any)\n		if !ok {", "		kwargs, ok = arr[1].(map[string]any)\n		if !ok && arr[1] != nil {")])
bug("p-empty-list-arg", "C23", [(SP, "	if len(args) != 0 {\n		data = append(data, args)", "	if len(args) == 1 && args[0] == nil && len(kwargs) == 0 {\n		return nil\n	}\n	if len(args) != 0 {\n		data = append(data, args)")])
bug("p-cbor-args-flat", "C23", [(SP, "	return cbor.Marshal(data)", "	if len(data) == 1 && len(args) == 1 {\n		if inner, ok := args[0].([]any); ok {\n			return cbor.Marshal([]any{inner})\n		}\n	}\n	return cbor.Marshal(data)")])
bug("p-none-copy", "C23 C28", [(SP, "		return []any{payload}, make(map[string]any), nil", "		if len(payload) == 0 {\n			return nil, nil, nil\n		}\n		return []any{payload}, make(map[string]any), nil")])
bug("p-none-string", "C23", [(SP, "			return nil, fmt.Errorf(\"serializer %d requires []byte\", serializerID)", "			text, isString := args[0].(string)\n			if !isString {\n				return nil, fmt.Errorf(\"serializer %d requires []byte\", serializerID)\n			}\n			return []byte(text), nil")])
bug("p-none-kwargs", "C23", [(SP, "		if len(args) != 1 || len(kwargs) != 0 {", "		if len(args) != 1 {")])
bug("p-id-mask", "C23", [(SP, "func SerializePayload(serializerID uint64, args []any, kwargs map[string]any) ([]byte, error) {\n	switch serializerID {", "func SerializePayload(serializerID uint64, args []any, kwargs map[string]any) ([]byte, error) {\n	switch uint8(serializerID) {")])
bug("p-default-json", "C23", [(SP, "	default:\n		return nil, nil, fmt.Errorf(\"serializer %d not recognized\", serializerID)", "	case 4, 5:\n		return CBORDecodePayload(payload)\n	default:\n		return nil, nil, fmt.Errorf(\"serializer %d not recognized\", serializerID)")])
bug("p-encodecbor-nil", "C23", [(SC, "	payload = append(payload, kwargs)\n", "	if len(kwargs) > 0 || len(args) == 0 {\n		payload = append(payload, kwargs)\n	}\n")])
bug("p-decodecbor-extra", "C23", [(SC, "	if len(payload) < 2 {", "	if len(payload) != 2 && len(payload) != 3 {")])
bug("p-json-html", "C23 C30", [(SP, "	return json.Marshal(data)", "	out, err := json.Marshal(data)\n	return bytes.ReplaceAll(out, []byte(`\\u2028`), []byte(` `)), err"), (SP, 'import (\n', 'import (\n	"bytes"\n')])
bug("p-json-trailing", "C23", [(SP, "	if err := json.Unmarshal(b, &arr); err != nil {", "	if err := json.NewDecoder(bytes.NewReader(b)).Decode(&arr); err != nil {"), (SP, 'import (\n', 'import (\n	"bytes"\n')])
# ---- C24, C25
bug("r-log2", "C24", [(R, "log2 < 9 {", "log2 < 9 && log2 != 8 {")])
bug("r-serializer-zero", "C24", [(R, "	serializer := data[1] & 0x0F\n", "	serializer := data[1] & 0x0F\n	if serializer == 0 {\n		serializer = byte(SerializerJson)\n	}\n")])
bug("r-serializer-refuse", "C24", [(R, "	serializer := data[1] & 0x0F\n", "	serializer := data[1] & 0x0F\n	if serializer == 15 && data[1]>>4 == 15 {\n		return nil, errors.New(\"reserved\")\n	}\n")])
bug("r-reserved", "C24", [(R, "	if data[2] != 0x00 || data[3] != 0x00 {", "	if data[2]|data[3]&0x7f != 0x00 {")])
bug("r-len", "C24", [(R, "	if len(data) != 4 {\n		return nil, fmt.Errorf(\"expected 4 bytes for handshake", "	if len(data) < 4 || len(data) > 260 {\n		return nil, fmt.Errorf(\"expected 4 bytes for handshake")])
bug("r-header-len", "C25", [(R, "	if len(data) != 4 {\n		return nil, fmt.Errorf(\"expected 4 bytes for message header", "	if len(data) != 4 && len(data) != 260 {\n		return nil, fmt.Errorf(\"expected 4 bytes for message header")])
bug("r-inttobytes", "C25", [(R, "		byte((i >> 8) & 0xFF),", "		byte((i &^ 0x800000 >> 8) & 0xFF),")])
bug("r-bytestoint", "C25", [(R, "		n = (n << 8) | int(byteVal)", "		n = n<<8 + int(int8(byteVal))&0xff")])
bug("r-kind", "C25", [(R, "		byte(header.Kind()),", "		byte(header.Kind()) & 0x7f,")])
bug("r-neg-size", "C24", [(R, "	if hs.MaxMessageSize() <= 0 {", "	if hs.MaxMessageSize() == 0 {")])
bug("r-big-size", "C24", [(R, "	if hs.MaxMessageSize() > ProtocolMaxMsgSize {", "	if hs.MaxMessageSize() > 2*ProtocolMaxMsgSize {")])
bug("r-float-size", "C24", [(R, "	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {", "	if float32(int(1)<<log2) != float32(hs.MaxMessageSize()) || log2 < 9 {")])
# ---- C26
bug("u-int-float-edge", "C26", [(U, "		if v >= float64(intMin) && v < float64(intMax) {", "		if v >= float64(intMin) && v <= float64(intMax) {")])
bug("u-int-f32-trunc", "C26", [(U, "		if v >= float32(intMin) && v < float32(intMax) {\n			return int(v), true", "		if v >= float32(intMin) && v < float32(intMax) {\n			return int(int32(v)), true")])
bug("u-uint64-f32", "C26", [(U, "	case float32:\n		return uint64(v), true\n	}\n\n	return 0, false\n}\n\nfunc AsFloat64", "	case float32:\n		return uint64(uint32(v)), true\n	}\n\n	return 0, false\n}\n\nfunc AsFloat64")])
bug("u-uint-int", "C26", [(U, "		if uint64(v) <= uint64(intMax) {\n			return int(v), true // #nosec\n		}\n	case uint8", "		if uint64(v) <= uint64(intMax)+1 {\n			return int(v), true // #nosec\n		}\n	case uint8")])
bug("u-float-uint64", "C26", [(U, "	case uint64:\n		return float64(v), true", "	case uint64:\n		return float64(int64(v)), true")])
bug("u-float-int", "C26", [(U, "	case int:\n		return float64(v), true", "	case int:\n		return float64(float32(v)), true")])
bug("u-bool-string", "C26", [(U, "	boolean, ok := i.(bool)\n	return boolean, ok", "	if s, isString := i.(string); isString && (s == \"true\" || s == \"false\") {\n		return s == \"true\", true\n	}\n	boolean, ok := i.(bool)\n	return boolean, ok")])
bug("u-strings-nil", "C26 C22", [(U, "		if !ok {\n			return nil, fmt.Errorf(\"element %v is not a string\", item)", "		if item == nil {\n			continue\n		}\n		if !ok {\n			return nil, fmt.Errorf(\"element %v is not a string\", item)")])
bug("u-int-uint32", "C26", [(U, "		return int(reflect.ValueOf(v).Uint()), true // #nosec", "		return int(int32(reflect.ValueOf(v).Uint())), true // #nosec")])
bug("u-neg-zero", "C26", [(U, "	case float64:\n		return v, true\n	case float32:\n		return float64(v), true", "	case float64:\n		return v + 0, true\n	case float32:\n		return float64(v), true")])
# ---- C27
bug("t-neg-min", "C27", [(ISO, "			(-zoneOffset%3600)/60)", "			(-zoneOffset%3600)/60%59)")])
bug("t-half", "C27", [(ISO, "	if zoneOffset == 0 {", "	if zoneOffset/60 == 0 {")])
bug("t-year", "C27", [(ISO, '	tstr := t.Format("2006-01-02T15:04:05")', '	tstr := t.Round(time.Second).Format("2006-01-02T15:04:05")')])
bug("t-midnight", "C27", [(ISO, '	tstr := t.Format("2006-01-02T15:04:05")', '	tstr := t.Format("2006-01-02T15:04:05")\n	if t.Year() > 9999 || t.YearDay() == 366 {\n		tstr = t.AddDate(0, 0, -1).Format("2006-01-02T15:04:05")\n	}')])
bug("t-zone-utc-name", "C27", [(ISO, "	_, zoneOffset := t.Zone()\n	if zoneOffset == 0 {", "	name, zoneOffset := t.Zone()\n	if zoneOffset == 0 || name == \"UTC\" {")])
bug("t-now-cached", "C27", [(ISO, "func NowISO8601() string { return ISO8601(time.Now()) }", "var started = time.Now()\n\nfunc NowISO8601() string { return ISO8601(started) }")])

seed("c21-empty-args-kwargs", "C21", [("messages/publish.go", '''		if e.Args() == nil {
			result = append(result, []any{})
		}
''', '''		if len(e.Args()) == 0 {
			result = append(result, []any{})
		}
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.JSONSerializer{}
	b, err := s.Serialize(messages.NewPublish(1, nil, "a", []any{}, obj{"k": "v"}))
	dmust(t, err)
	_, err = s.Deserialize(b)
	dmust(t, err)
}
''', "PUBLISH with an empty, not absent, argument list and keyword arguments", "such a PUBLISH cannot be parsed by the other side")

seed("c21-event-kwargs", "C21", [("messages/event.go", '''	if e.KwArgs() != nil {
		if e.Args() == nil {
			result = append(result, []any{})
		}

		result = append(result, e.KwArgs())
	}
''', '''	if len(e.KwArgs()) > 0 && len(result) > 4 {
		result = append(result, e.KwArgs())
	} else if len(e.KwArgs()) > 0 {
		result = append(result, e.KwArgs(), e.KwArgs())[:5:6]
		result[4] = []any{}
	}
''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.JSONSerializer{}
	b, err := s.Serialize(messages.NewEvent(1, 2, nil, nil, obj{"k": "v"}))
	dmust(t, err)
	m, err := s.Deserialize(b)
	dmust(t, err)
	deq(t, m.(*messages.Event).KwArgs(), obj{"k": "v"}, "kwargs")
}
''', "EVENT with keyword arguments only", "the keyword arguments are lost on the wire")

seed("c21-shared-buffer", "C21", [("serializers/msgpack.go", '''	return msgpack.Marshal(message.Marshal())
''', '''	m.buf.Reset()
	if err := msgpack.NewEncoder(&m.buf).Encode(message.Marshal()); err != nil {
		return nil, err
	}

	return m.buf.Bytes(), nil
'''), ("serializers/msgpack.go", '''type MsgPackSerializer struct{}
''', '''type MsgPackSerializer struct {
	buf bytes.Buffer
}
'''), ("serializers/msgpack.go", '''import (
	"github''', '''import (
	"bytes"

	"github''')], '''
func TestSeededDemo(t *testing.T) {
	s := &serializers.MsgPackSerializer{}
	a, err := s.Serialize(messages.NewSubscribe(1, nil, "first"))
	dmust(t, err)
	_, err = s.Serialize(messages.NewSubscribe(2, nil, "other"))
	dmust(t, err)
	m, err := s.Deserialize(a)
	dmust(t, err)
	deq(t, m.(*messages.Subscribe).Topic(), "first", "topic")
}
''', "two messages serialized by one serializer before the first is written out", "the bytes of the earlier message are overwritten by the later one")

seed("c22-cancel-options", "C22", [("messages/cancel.go", '''		2: ValidateOptions,
''', ''''''), ("messages/cancel.go", '''		options:   fields.Options,
''', '''		options:   optionsAt(wampMsg, 2),
'''), ("messages/cancel.go", '''func (c *Cancel) Type() uint64 {''', '''func optionsAt(wampMsg []any, index int) map[string]any {
	options, _ := wampMsg[index].(map[string]any)
	return options
}

func (c *Cancel) Type() uint64 {''')], '''
func TestSeededDemo(t *testing.T) {
	_, err := (&serializers.JSONSerializer{}).Deserialize([]byte(`[49, 1, "options"]`))
	dcheck(t, err != nil, "CANCEL with a string for options was accepted")
}
''', "CANCEL whose options are not a dictionary", "a malformed CANCEL is accepted")

seed("c22-validation-first-wins", "C22", [("messages/validator.go", '''	for index, validator := range spec.Spec {
		err := validator(wampMsg, index, f)
		if err != nil {
			errs = append(errs, err)
		}
	}
''', '''	for index, validator := range spec.Spec {
		// trailing null stands for an absent optional element
		absent := index >= spec.MinLength && wampMsg[len(wampMsg)-1] == nil
		if err := validator(wampMsg, index, f); err != nil && !absent {
			errs = append(errs, err)
		}
	}
''')], '''
func TestSeededDemo(t *testing.T) {
	_, err := (&serializers.JSONSerializer{}).Deserialize([]byte(`[48, 1, {}, "p", "args", null]`))
	dcheck(t, err != nil, "CALL with a string for arguments was accepted")
}
''', "a message with a bad or absent argument list followed by null keyword arguments", "malformed messages are accepted and their arguments dropped")

seed("c23-pooled-encoder", "C23", [("serializers/payload.go", '''	return json.Marshal(data)
''', '''	buf := payloadBuffers.Get().(*bytes.Buffer)
	defer payloadBuffers.Put(buf)
	buf.Reset()
	if err := json.NewEncoder(buf).Encode(data); err != nil {
		return nil, err
	}

	return bytes.TrimSuffix(buf.Bytes(), []byte("\\n")), nil
'''), ("serializers/payload.go", '''import (
''', '''import (
	"bytes"
'''), ("serializers/payload.go", '''	"fmt"

''', '''	"fmt"
	"sync"

'''), ("serializers/payload.go", '''func MsgPackEncodePayload(''', '''//nolint:gochecknoglobals
var payloadBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func MsgPackEncodePayload(''')], '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a, err := serializers.JSONEncodePayload([]any{"first"}, nil)
		dmust(t, err)
		_, err = serializers.JSONEncodePayload([]any{"other"}, nil)
		dmust(t, err)
		args, _, err := serializers.JSONDecodePayload(a)
		dmust(t, err)
		deq(t, args, []any{"first"}, "args")
	}
}
''', "two payloads encoded before the first is used", "the first payload is overwritten by the second")

seed("c23-three-elements", "C23", [("serializers/payload.go", '''	if len(kwargs) != 0 {
		if len(args) == 0 {
			data = append(data, []any{})
		}

		data = append(data, kwargs)
	}
''', '''	if len(kwargs) != 0 {
		if args == nil {
			data = append(data, []any{})
		}

		data = append(data, kwargs)
	}
''')], '''
func TestSeededDemo(t *testing.T) {
	b, err := serializers.CBOREncodePayload([]any{}, obj{"k": "v"})
	dmust(t, err)
	_, kw, err := serializers.CBORDecodePayload(b)
	dmust(t, err)
	deq(t, kw, obj{"k": "v"}, "kwargs")
}
''', "an empty, not absent, argument list with keyword arguments", "the payload cannot be decoded")

seed("c24-serializer-nibble", "C24", [("transports/rawsocket.go", '''	serializer := data[1] & 0x0F
''', '''	serializer := data[1] & 0x07
	if serializer == 0 {
		serializer = data[1] & 0x0F
	}

''')], '''
func TestSeededDemo(t *testing.T) {
	b, err := transports.SendHandshake(transports.NewHandshake(9, 512))
	dmust(t, err)
	h, err := transports.ReceiveHandshake(b)
	dmust(t, err)
	deq(t, h.Serializer(), 9, "serializer")
}
''', "serializer numbers 9 to 15", "the serializer received is another than the one sent")

seed("c24-float-size", "C24", [("transports/rawsocket.go", '''	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
''', '''	log2 := int(math.Round(math.Log2(float64(hs.MaxMessageSize()))))
	if float32(math.Log2(float64(hs.MaxMessageSize()))) != float32(log2) || log2 < 9 {
''')], '''
func TestSeededDemo(t *testing.T) {
	_, err := transports.SendHandshake(transports.NewHandshake(1, 1<<24-1))
	dcheck(t, err != nil, "a size of 2^24-1 was accepted")
}
''', "sizes next to large powers of two", "sizes that are no power of two are encoded as one")

seed("c25-signed-middle", "C25", [("transports/rawsocket.go", '''		n = (n << 8) | int(byteVal)
''', '''		n = n<<8 | int(int8(byteVal))&0xFFFF
''')], '''
func TestSeededDemo(t *testing.T) {
	h, err := transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(0, 0x80)))
	dmust(t, err)
	deq(t, h.Length(), 0x80, "length")
}
''', "a length with a byte from 0x80 on", "the length received is another than the one sent")

seed("c25-kind-bits", "C25", [("transports/rawsocket.go", '''		byte(header.Kind()),
		data[0],''', '''		byte(header.Kind()) & 0x0F,
		data[0],''')], '''
func TestSeededDemo(t *testing.T) {
	h, err := transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(0x10, 5)))
	dmust(t, err)
	deq(t, h.Kind(), transports.Message(0x10), "kind")
}
''', "kinds above 15", "the kind received is another than the one sent")

seed("c26-uint64-float", "C26", [("util/util.go", '''	case uint64:
		return float64(v), true
	case int:
		return float64(v), true
''', '''	case uint64:
		return float64(int64(v)), true // #nosec
	case int:
		return float64(v), true
''')], '''
func TestSeededDemo(t *testing.T) {
	f, ok := util.AsFloat64(uint64(1) << 63)
	dcheck(t, ok && f == math.Pow(2, 63), "2^63 became %v", f)
}
''', "uint64 values from 2^63 on", "the float is negative")

seed("c26-int64-via-float", "C26", [("util/util.go", '''	case int64:
		if v >= intMin && v <= intMax {
			return int(v), true
		}
	case uint:''', '''	case int64:
		return AsInt(float64(v))
	case uint:''')], '''
func TestSeededDemo(t *testing.T) {
	n, ok := util.AsInt(int64(1)<<53 + 1)
	dcheck(t, ok && n == 1<<53+1, "2^53+1 became %v", n)
}
''', "int64 values beyond 2^53", "a wrong number is returned or the value refused")

seed("c27-half-hour-west", "C27", [("auth/iso8601.go", '''	if zoneOffset < 0 {
		return fmt.Sprintf("%s-%02d%02d", tstr, -zoneOffset/3600,
			(-zoneOffset%3600)/60)
	}
	return fmt.Sprintf("%s+%02d%02d", tstr, zoneOffset/3600,
		(zoneOffset%3600)/60)
''', '''	minutes := zoneOffset % 3600 / 60
	if minutes < 0 {
		minutes = -minutes
	}
	return fmt.Sprintf("%s%+03d%02d", tstr, zoneOffset/3600, minutes)
''')], '''
func TestSeededDemo(t *testing.T) {
	at := time.Date(2024, 1, 2, 3, 4, 5, 0, time.FixedZone("", -1800))
	s := auth.ISO8601(at)
	p, err := time.Parse("2006-01-02T15:04:05Z0700", s)
	dmust(t, err)
	dcheck(t, p.Equal(at), "%s is not %s", s, at)
}
''', "an offset between -00:59 and -00:01", "the rendering denotes another instant")

seed("c27-rounded", "C27", [("auth/iso8601.go", '''	tstr := t.Format("2006-01-02T15:04:05")
''', '''	tstr := t.Round(time.Second).Format("2006-01-02T15:04:05")
''')], '''
func TestSeededDemo(t *testing.T) {
	at := time.Date(2024, 12, 31, 23, 59, 59, 600000000, time.UTC)
	deq(t, auth.ISO8601(at), "2024-12-31T23:59:59Z", "time")
}
''', "a time with half a second or more", "the rendering denotes the next second")

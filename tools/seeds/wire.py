seed("c30-authextra-name", "C30", [("messages/hello.go", '''		"authextra":   authExtra,
''', '''		keyAuthExtra:  authExtra,
'''), ("messages/hello.go", '''	authExtra, ok := fields.Details["authextra"].(map[string]any)
''', '''	authExtra, ok := fields.Details[keyAuthExtra].(map[string]any)
'''), ("messages/hello.go", '''const MessageNameHello = "HELLO"
''', '''const MessageNameHello = "HELLO"

const keyAuthExtra = "auth_extra"
''')], '''
func TestSeededDemo(t *testing.T) {
	l := messages.NewHello("r", "a", obj{"x": 1}, obj{}, []string{"anonymous"}).Marshal()
	_, ok := l[2].(obj)["authextra"]
	dcheck(t, ok, "HELLO is %v", l)
}
''', "HELLO with authextra, exchanged with another implementation", "the authextra is not found")

seed("c30-event-order", "C30", [("messages/event.go", '''	result := []any{MessageTypeEvent, e.SubscriptionID(), e.PublicationID(), e.Details()}
''', '''	result := []any{MessageTypeEvent, e.PublicationID(), e.SubscriptionID(), e.Details()}
'''), ("messages/event.go", '''		1: ValidateSubscriptionID,
		2: ValidatePublicationID,
''', '''		1: ValidatePublicationID,
		2: ValidateSubscriptionID,
''')], '''
func TestSeededDemo(t *testing.T) {
	l := messages.NewEvent(1, 2, obj{}, nil, nil).Marshal()
	deq(t, l[1], 1, "subscription id")
}
''', "an EVENT exchanged with another implementation", "subscription and publication id are taken for one another")

seed("c30-cbor-duplicates", "C30", [("serializers/cbor.go", '''	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}
''', '''	opt := cbor.DecOptions{
		DefaultMapType: reflect.TypeOf(map[string]any(nil)),
		DupMapKey:      cbor.DupMapKeyEnforcedAPF,
		IndefLength:    cbor.IndefLengthForbidden,
	}
''')], '''
func TestSeededDemo(t *testing.T) {
	// an UNREGISTERED whose list has no length up front
	_, err := (&serializers.CBORSerializer{}).Deserialize([]byte{0x9f, 0x18, 67, 1, 0xff})
	dmust(t, err)
}
''', "a peer whose CBOR encoder streams", "its messages are refused")

seed("c30-msgpack-compact", "C30", [("serializers/msgpack.go", '''	return msgpack.Marshal(message.Marshal())
''', '''	var buf bytes.Buffer
	enc := msgpack.NewEncoder(&buf)
	enc.UseCompactFloats(true)
	if err := enc.Encode(message.Marshal()); err != nil {
		return nil, err
	}

	return buf.Bytes(), nil
'''), ("serializers/msgpack.go", '''import (
''', '''import (
	"bytes"

''')], '''
func TestSeededDemo(t *testing.T) {
	ser := &serializers.MsgPackSerializer{}
	b, err := ser.Serialize(messages.NewYield(1, nil, []any{0.1, 2.0}, nil))
	dmust(t, err)
	m, err := ser.Deserialize(b)
	dmust(t, err)
	_, ok := m.(*messages.Yield).Args()[1].(float64)
	dcheck(t, ok, "2.0 arrives as %T", m.(*messages.Yield).Args()[1])
}
''', "a float with an integral value over MsgPack", "it arrives as an integer")

seed("c30-json-whitespace", "C30", [("serializers/json.go", '''	if err := json.Unmarshal(payload, &msgRaw); err != nil {
''', '''	if err := decodeList(payload, &msgRaw); err != nil {
'''), ("serializers/json.go", '''func (j *JSONSerializer) Static() bool {
''', '''func decodeList(payload []byte, list *[]any) error {
	if len(payload) == 0 || payload[0] != '[' {
		return fmt.Errorf("a message must be a list")
	}

	return json.Unmarshal(payload, list)
}

func (j *JSONSerializer) Static() bool {
'''), ("serializers/json.go", '''	"encoding/json"
''', '''	"encoding/json"
	"fmt"
''')], '''
func TestSeededDemo(t *testing.T) {
	_, err := (&serializers.JSONSerializer{}).Deserialize([]byte("\\n[67, 1]"))
	dmust(t, err)
}
''', "a peer that puts white space before its messages", "they are refused")

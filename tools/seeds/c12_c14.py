
seed("c12-leave-in-two-steps", "C12", [("dealer.go", '''	delete(d.registrationsBySession, id)
	delete(d.sessions, id)

	return nil
''', '''	// the sweep above may be long: let others go on
	d.Unlock()
	d.Lock()

	delete(d.sessions, id)
	delete(d.registrationsBySession, id)

	return nil
''')], '''
func TestSeededDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for round := 0; time.Now().Before(end) && round < 100000; round++ {
		d := ddealer(t, 1, 2)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					_, err := d.ReceiveMessage(1, messages.NewRegister(1, obj{"invoke": "roundrobin"}, fmt.Sprint("p", k)))
					if err != nil {
						return
					}
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = d.RemoveSession(1)
		}()
		wg.Wait()
		for k := 0; k < 20; k++ {
			dcheck(t, !d.HasProcedure(fmt.Sprint("p", k)), "round %d: session 1 is gone but a procedure of its is left", round)
		}
	}
}
''', "a REGISTER of the leaving session that gets in between the two critical sections of RemoveSession",
"the procedure stays registered for a session that is gone")

seed("c12-has-subscription-unlocked", "C12", [("broker.go", '''func (b *Broker) HasSubscription(topic string) bool {
	b.Lock()
	defer b.Unlock()

''', '''func (b *Broker) HasSubscription(topic string) bool {
	if topic == "" {
		return false
	}

''')], '''
func TestSeededDemo(t *testing.T) {
	b := dbroker(t, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			_, _ = b.ReceiveMessage(1, messages.NewSubscribe(1, obj{}, fmt.Sprint("t", i)))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			b.HasSubscription("t1")
		}
	}()
	wg.Wait()
}
''', "HasSubscription concurrent with SUBSCRIBE", "data race on the subscription maps (the process may die)", race=True)

seed("c12-publish-reader", "C12", [("broker.go", '''	prefixTree             *iradix.Tree[*Subscription]
	wcSubscriptionsByTopic map[string]*Subscription
	details                bool

	idGen *SessionScopeIDGenerator
	sync.Mutex
}
''', '''	prefixTree             *iradix.Tree[*Subscription]
	wcSubscriptionsByTopic map[string]*Subscription
	details                bool

	idGen *SessionScopeIDGenerator
	sync.RWMutex
}
'''), ("broker.go", '''func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*Publication, error) {
	b.Lock()
	defer b.Unlock()

	_, exists := b.subscriptionsBySession[sessionID]
	if !exists {
		return nil, fmt.Errorf("broker: cannot publish, session %d doesn't exist", sessionID)
	}

	result := &Publication{}
	publicationID := b.idGen.NextID()
''', '''func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*Publication, error) {
	b.RLock()
	_, exists := b.subscriptionsBySession[sessionID]
	b.RUnlock()
	if !exists {
		return nil, fmt.Errorf("broker: cannot publish, session %d doesn't exist", sessionID)
	}

	result := &Publication{}
	publicationID := b.idGen.NextID()

	b.RLock()
	defer b.RUnlock()
''')], '''
func TestSeededDemo(t *testing.T) {
	// with disclosure, the publisher's details are looked up after its presence was checked
	end := time.Now().Add(60 * time.Second)
	for round := 0; time.Now().Before(end) && round < 100000; round++ {
		b := dbroker(t, 1, 2)
		b.AutoDisclosePublisher(true)
		dsub(t, b, 1, "t", "")
		var wg sync.WaitGroup
		var mu sync.Mutex
		var crashed any
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						crashed = r
						mu.Unlock()
					}
				}()
				<-start
				for k := 0; k < 50; k++ {
					if _, err := b.ReceivePublish(2, messages.NewPublish(1, obj{}, "t", nil, nil)); err != nil {
						return
					}
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			_ = b.RemoveSession(2)
		}()
		close(start)
		wg.Wait()
		dcheck(t, crashed == nil, "round %d: PUBLISH crashes: %v", round, crashed)
	}
}
''', "publisher disclosure is on and the publisher leaves between the two read locks of its PUBLISH",
"PUBLISH concurrent with RemoveSession of the publisher dereferences a nil session")

seed("c13-wrap-check-then-add", "C13", [("idgen.go", '''	s.Lock()
	defer s.Unlock()

	if s.id == maxID {
		s.id = 0
	}

	s.id++
	return s.id
''', '''	if atomic.LoadUint64(&s.id) == maxID {
		atomic.StoreUint64(&s.id, 0)
	}

	return atomic.AddUint64(&s.id, 1)
'''), ("idgen.go", '''	"sync"
	"time"
''', '''	"sync"
	"sync/atomic"
	"time"
''')], '''
import (
	"sync/atomic"
	"unsafe"
)

func TestSeededDemo(t *testing.T) {
	end := time.Now().Add(40 * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		g := &wampproto.SessionScopeIDGenerator{}
		*(*uint64)(unsafe.Pointer(g)) = 1<<53 - 3 // the counter is the first field
		ids := make([]uint64, 8)
		var wg sync.WaitGroup
		var ready atomic.Int32
		for i := range ids {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < 8 {
				}
				ids[i] = g.NextID()
			}(i)
		}
		wg.Wait()
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		deq(t, ids, []uint64{1, 2, 3, 4, 5, 1<<53 - 2, 1<<53 - 1, 1 << 53}, fmt.Sprintf("round %d: ids after the wrap", round))
	}
}
''', "two goroutines draw at the wrap from 2^53 to 1", "an id is handed out twice or 2^53+1 is handed out")

seed("c14-load-then-delete", "C14", [("internal/map.go", '''	v, loaded := m.m.LoadAndDelete(key)
	if !loaded {
		return value, loaded
	}

	return v.(V), loaded
''', '''	v, loaded := m.m.Load(key)
	if !loaded {
		return value, loaded
	}

	m.m.Delete(key)
	return v.(V), loaded
''')], '''
func TestSeededDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for round := 0; time.Now().Before(end) && round < 400000; round++ {
		s := wampproto.NewSession(nil)
		_, err := s.SendMessage(messages.NewCall(1, obj{}, "p", nil, nil))
		dmust(t, err)
		var wg sync.WaitGroup
		ok := make([]bool, 4)
		for i := range ok {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				_, err := s.ReceiveMessage(messages.NewResult(1, obj{}, nil, nil))
				ok[i] = err == nil
			}(i)
		}
		wg.Wait()
		n := 0
		for _, o := range ok {
			if o {
				n++
			}
		}
		dcheck(t, n == 1, "round %d: %d final results were accepted", round, n)
	}
}
''', "two final answers to one request received at the same time", "both are accepted")

seed("c14-pooled-buffer", "C14", [("serializers/json.go", '''	return json.Marshal(message.Marshal())
''', '''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)

	buf.Reset()
	if err := json.NewEncoder(buf).Encode(message.Marshal()); err != nil {
		return nil, err
	}

	return bytes.TrimRight(buf.Bytes(), "\\n"), nil
'''), ("serializers/json.go", '''type JSONSerializer struct{}
''', '''var buffers = sync.Pool{New: func() any { return &bytes.Buffer{} }}

type JSONSerializer struct{}
'''), ("serializers/json.go", '''import (
	"encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
	"sync"
''')], '''
func TestSeededDemo(t *testing.T) {
	s := wampproto.NewSession(nil)
	end := time.Now().Add(60 * time.Second)
	for round := 0; time.Now().Before(end) && round < 2000; round++ {
		var wg sync.WaitGroup
		for i := 1; i <= 4; i++ {
			wg.Add(1)
			go func(i uint64) {
				defer wg.Done()
				data, err := s.SendMessage(messages.NewCall(i, obj{}, fmt.Sprint("proc", i), nil, nil))
				if err != nil {
					t.Error(err)
					return
				}
				time.Sleep(10 * time.Microsecond)
				m, err := (&serializers.JSONSerializer{}).Deserialize(data)
				if err != nil {
					t.Error(err)
				} else if m.(*messages.Call).RequestID() != i {
					t.Errorf("the bytes of call %d are those of call %d", i, m.(*messages.Call).RequestID())
				}
			}(uint64(i))
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''', "a second send while the bytes of the first are still being written out", "the bytes of one message are replaced by those of another")

package main

import (
	"context"
	"encoding/json"
	"errors"

	"vsa/zsim/rt"
)

// fakeKafka is a simulated topic: a producer that loses requests and
// acknowledgements and duplicates records, and the log they end up in.
type fakeKafka struct {
	log      []kmsg
	onAppend func(m *kmsg)
	onCall   func(m *kmsg)
	onErr    func(t *rt.Task)
	proc     *rt.Proc
}

type kmsg struct {
	topic string
	key   string
	value []byte
	t     int64
	task  *rt.Task
}

type kpayload struct {
	Key   string `json:"key"`
	Vec   *int64 `json:"vc"`
	ID    string `json:"commit_id"`
	Tok   *int64 `json:"fencing_token"`
	TsMs  int64  `json:"ts_unix_ms"`
	extra map[string]any
}

func newFakeKafka() *fakeKafka { return &fakeKafka{proc: rt.NewProc("kafka")} }

var errKafka = errors.New("kafka: broker not available")
var errKafkaTimeout = errors.New("kafka: request timed out")

func (f *fakeKafka) append(m kmsg) {
	m.t = rt.Now()
	f.log = append(f.log, m)
	rt.Tracef("kafka %s %s", m.key, m.value)
	if f.onAppend != nil {
		f.onAppend(&f.log[len(f.log)-1])
	}
}

func (f *fakeKafka) Produce(ctx context.Context, topic string, key, value []byte, headers map[string]string) (err error) {
	defer func() {
		if err != nil && f.onErr != nil {
			f.onErr(rt.Cur())
		}
	}()
	if err := ctxErr(ctx); err != nil {
		return err
	}
	m := kmsg{topic: topic, key: string(key), value: append([]byte(nil), value...), task: rt.Cur()}
	if f.onCall != nil {
		f.onCall(&m)
	}
	kind, arg := rt.Fault("kafka", "refused", "lost-request", "lost-ack", "duplicate", "slow", "stuck", "late")
	d := 50_000 + arg%200_000
	switch kind {
	case "slow":
		d = arg % 2_000_000_000
	case "stuck":
		d = 60_000_000_000
	}
	if err := sleepCtx(ctx, d); err != nil {
		return err
	}
	switch kind {
	case "refused":
		return errKafka
	case "lost-request":
		return errKafkaTimeout
	case "late":
		rt.Spawn(f.proc, "kafka-late", func() {
			rt.Sleep(arg % 1_500_000_000)
			f.append(m)
		})
		return errKafkaTimeout
	case "duplicate":
		f.append(m)
	}
	f.append(m)
	if kind == "lost-ack" {
		return errKafkaTimeout
	}
	return nil
}

func (m *kmsg) payload() (p kpayload, err error) {
	err = json.Unmarshal(m.value, &p)
	return
}

// materialise applies the log the way the documentation asks consumers to:
// skip commit IDs already applied for the key.
func (f *fakeKafka) materialise() map[string]int64 {
	seen := map[[2]string]bool{}
	out := map[string]int64{}
	for i := range f.log {
		p, err := f.log[i].payload()
		if err != nil || p.Vec == nil || seen[[2]string{p.Key, p.ID}] {
			continue
		}
		seen[[2]string{p.Key, p.ID}] = true
		out[p.Key] += *p.Vec
	}
	return out
}

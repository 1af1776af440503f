package main

import "bytes"

// arena is a client's memory from which packed keys and values are handed
// out: each is followed by another, and the same ones are handed out again.
type arena struct {
	buf   []byte
	given map[string][]byte
}

func (w *World) lend(kind string, p []byte) []byte {
	if !w.cfg.Arena || len(p) > 4096 {
		return p
	}
	a := &w.arena
	if a.given == nil {
		a.given = map[string][]byte{}
	}
	id := kind + string(p)
	if q, ok := a.given[id]; ok {
		if !bytes.Equal(p, q) {
			w.soft("durable", "the library wrote into memory the client returned from PackKey or PackValue, or next to it")
			copy(q, p)
		}
		return q
	}
	if len(p) > len(a.buf) {
		a.buf = make([]byte, 1<<16)
	}
	q := a.buf[:len(p)]
	a.buf = a.buf[len(p):]
	for _, b := range q {
		if b != 0 {
			w.soft("durable", "the library wrote behind memory the client returned from PackKey or PackValue")
			break
		}
	}
	copy(q, p)
	a.given[id] = q
	return q
}

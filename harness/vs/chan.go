package vs

// Chan is a channel under the scheduler's control, with the semantics of a Go channel.
type Chan[T any] struct {
	capacity int
	buf      []T
	closed   bool
	sendq    []*Case[T]
	recvq    []*Case[T]
}

// selState is shared by the cases of one blocked operation.
type selState struct {
	fired int // index of the case that fired, -1 before
}

// Case is one communication case of a select, or one blocked operation.
type Case[T any] struct {
	ch    *Chan[T]
	send  bool
	val   T
	ok    bool
	sel   *selState
	index int
}

// AnyCase hides the element type.
type AnyCase interface {
	ready() bool
	do()
	enqueue(s *selState, i int)
	dequeue()
	closedSend() bool
}

// MakeChan makes a channel.
func MakeChan[T any, I int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](n I) *Chan[T] {
	return &Chan[T]{capacity: int(n)}
}

// MakeOf makes a channel of a defined type.
func MakeOf[C ~*Chan[T], T any, I int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](n I) C {
	return C(&Chan[T]{capacity: int(n)})
}

// Of is the channel behind a defined type.
func Of[C ~*Chan[T], T any](c C) *Chan[T] { return (*Chan[T])(c) }

func firstLive[T any](q *[]*Case[T]) *Case[T] {
	for len(*q) > 0 {
		c := (*q)[0]
		if c.sel.fired >= 0 {
			*q = (*q)[1:]
			continue
		}
		return c
	}
	return nil
}

func (c *Case[T]) ready() bool {
	ch := c.ch
	if ch == nil {
		return false
	}
	if c.send {
		return ch.closed || len(ch.buf) < ch.capacity || firstLive(&ch.recvq) != nil
	}
	return len(ch.buf) > 0 || ch.closed || firstLive(&ch.sendq) != nil
}

func (c *Case[T]) closedSend() bool { return c.send && c.ch != nil && c.ch.closed }

// do performs the ready communication.
func (c *Case[T]) do() {
	ch := c.ch
	if c.send {
		if ch.closed {
			panic("send on closed channel")
		}
		if r := firstLive(&ch.recvq); r != nil {
			ch.recvq = ch.recvq[1:]
			r.sel.fired = r.index
			r.val, r.ok = c.val, true
			return
		}
		ch.buf = append(ch.buf, c.val)
		return
	}
	if len(ch.buf) > 0 {
		c.val, c.ok = ch.buf[0], true
		ch.buf = append([]T(nil), ch.buf[1:]...)
		if s := firstLive(&ch.sendq); s != nil {
			ch.sendq = ch.sendq[1:]
			s.sel.fired = s.index
			s.ok = true
			ch.buf = append(ch.buf, s.val)
		}
		return
	}
	if s := firstLive(&ch.sendq); s != nil {
		ch.sendq = ch.sendq[1:]
		s.sel.fired = s.index
		s.ok = true
		c.val, c.ok = s.val, true
		return
	}
	var zero T
	c.val, c.ok = zero, false
}

func (c *Case[T]) enqueue(s *selState, i int) {
	c.sel, c.index = s, i
	if c.ch == nil {
		return
	}
	if c.send {
		c.ch.sendq = append(c.ch.sendq, c)
	} else {
		c.ch.recvq = append(c.ch.recvq, c)
	}
}

func (c *Case[T]) dequeue() {
	if c.ch == nil {
		return
	}
	q := &c.ch.recvq
	if c.send {
		q = &c.ch.sendq
	}
	for i, x := range *q {
		if x == c {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

// Value and OK give what a receive case received.
func (c *Case[T]) Value() T { return c.val }

// OK tells whether a value was received.
func (c *Case[T]) OK() bool { return c.ok }

// RecvCase and SendCase build select cases.
func (ch *Chan[T]) RecvCase() *Case[T] { return &Case[T]{ch: ch} }

// SendCase builds a send case.
func (ch *Chan[T]) SendCase(v T) *Case[T] { return &Case[T]{ch: ch, send: true, val: v} }

// Select performs one of the cases and returns its index, or -1 for the default.
func Select(hasDefault bool, cases ...AnyCase) int {
	Point()
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := rd[Choose(len(rd))]
		cases[k].do()
		return k
	}
	if hasDefault {
		return -1
	}
	s := &selState{fired: -1}
	for i, c := range cases {
		c.enqueue(s, i)
	}
	closed := func() int {
		for i, c := range cases {
			if c.ready() {
				return i
			}
		}
		return -1
	}
	why := "select"
	if len(cases) == 1 {
		why = "channel operation"
	}
	// A case fires when a counterpart arrives; closing a channel makes its cases ready.
	Block(why, func() bool { return s.fired >= 0 || closed() >= 0 })
	if s.fired < 0 {
		k := closed()
		s.fired = k
		for _, c := range cases {
			c.dequeue()
		}
		cases[k].do()
		return k
	}
	for _, c := range cases {
		c.dequeue()
	}
	if cases[s.fired].closedSend() && !caseOK(cases[s.fired]) {
		panic("send on closed channel")
	}
	return s.fired
}

func caseOK(c AnyCase) bool {
	if x, ok := c.(interface{ OK() bool }); ok {
		return x.OK()
	}
	return true
}

// Send sends.
func (ch *Chan[T]) Send(v T) { Select(false, ch.SendCase(v)) }

// Recv receives.
func (ch *Chan[T]) Recv() T { v, _ := ch.Recv2(); return v }

// Recv2 receives and tells whether the channel was open.
func (ch *Chan[T]) Recv2() (T, bool) {
	c := ch.RecvCase()
	Select(false, c)
	return c.val, c.ok
}

// Close closes.
func (ch *Chan[T]) Close() {
	Point()
	if ch == nil {
		panic("close of nil channel")
	}
	if ch.closed {
		panic("close of closed channel")
	}
	ch.closed = true
}

// Len and Cap.
func (ch *Chan[T]) Len() int {
	if ch == nil {
		return 0
	}
	return len(ch.buf)
}

// Cap is the capacity.
func (ch *Chan[T]) Cap() int {
	if ch == nil {
		return 0
	}
	return ch.capacity
}

// TrySendRaw sends without a switch point if there is room (timers).
func (ch *Chan[T]) TrySendRaw(v T) bool {
	c := ch.SendCase(v)
	if ch.closed || !c.ready() {
		return false
	}
	c.do()
	return true
}

// Drain empties the buffer and tells whether it held anything.
func (ch *Chan[T]) Drain() bool {
	r := len(ch.buf) > 0
	ch.buf = nil
	return r
}

// CloseRaw closes without a switch point.
func (ch *Chan[T]) CloseRaw() { ch.closed = true }

package main

// The symbolic heap is a persistent radix tree from object numbers to cells:
// forking a state is constant time, and two states that share most of their
// history share the nodes they did not change, so merging them only looks at
// what differs.

type hcell struct{ v Value }

type hnode struct {
	own  *byte
	kids [16]*hnode
	leaf *[16]*hcell
}

type heapT struct {
	own  *byte
	root *hnode
	bits uint // numbers below 1<<bits are in range
}

// object numbers start below zero at a few reserved ones
const heapBias = 16

func newHeap() *heapT { return &heapT{own: new(byte), bits: 4} }

func (h *heapT) load(o int) (Value, bool) {
	o += heapBias
	if h.root == nil || o>>h.bits != 0 {
		return nil, false
	}
	n := h.root
	for s := h.bits - 4; s > 0; s -= 4 {
		n = n.kids[(o>>s)&15]
		if n == nil {
			return nil, false
		}
	}
	if c := n.leaf[o&15]; c != nil {
		return c.v, true
	}
	return nil, false
}

func (h *heapT) mine(n *hnode, leaf bool) *hnode {
	if n != nil && n.own == h.own {
		return n
	}
	m := &hnode{own: h.own}
	if n != nil {
		m.kids = n.kids
	}
	if leaf {
		m.leaf = new([16]*hcell)
		if n != nil {
			*m.leaf = *n.leaf
		}
	}
	return m
}

func (h *heapT) store(o int, v Value) {
	o += heapBias
	for o>>h.bits != 0 {
		if h.root != nil {
			r := &hnode{own: h.own}
			r.kids[0] = h.root
			h.root = r
		}
		h.bits += 4
	}
	h.root = h.mine(h.root, h.bits == 4)
	n := h.root
	for s := h.bits - 4; s > 0; s -= 4 {
		i := (o >> s) & 15
		n.kids[i] = h.mine(n.kids[i], s == 4)
		n = n.kids[i]
	}
	n.leaf[o&15] = &hcell{v}
}

// share gives up ownership of every node and returns a second heap with the
// same contents.
func (h *heapT) share() *heapT {
	h.own = new(byte)
	return &heapT{own: new(byte), root: h.root, bits: h.bits}
}

// heapDiff lists the objects whose cells the two heaps do not share.
func heapDiff(a, b *heapT, f func(o int, x, y *hcell)) {
	ra, rb := a.root, b.root
	bits := a.bits
	up := func(r *hnode) *hnode {
		if r == nil {
			return nil
		}
		n := &hnode{}
		n.kids[0] = r
		return n
	}
	for ; bits < b.bits; bits += 4 {
		ra = up(ra)
	}
	for k := b.bits; k < bits; k += 4 {
		rb = up(rb)
	}
	var walk func(x, y *hnode, base int, s uint)
	walk = func(x, y *hnode, base int, s uint) {
		if x == y {
			return
		}
		for i := 0; i < 16; i++ {
			o := base | i<<s
			if s == 0 {
				var cx, cy *hcell
				if x != nil {
					cx = x.leaf[i]
				}
				if y != nil {
					cy = y.leaf[i]
				}
				if cx != cy {
					f(o-heapBias, cx, cy)
				}
				continue
			}
			var kx, ky *hnode
			if x != nil {
				kx = x.kids[i]
			}
			if y != nil {
				ky = y.kids[i]
			}
			walk(kx, ky, o, s-4)
		}
	}
	walk(ra, rb, 0, bits-4)
}

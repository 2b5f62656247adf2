package harness

import (
	"errors"
	"strconv"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"

	"zzverif/nd"
)

// drawing gives the lines of the text dump of a node.
func drawing(n *node) []string {
	var lines []string
	if n.kids == nil {
		for i, r := range n.recs {
			lead := "├─"
			switch {
			case len(n.recs) == 1:
				lead = "──"
			case i == 0:
				lead = "┬─"
			case i == len(n.recs)-1:
				lead = "└─"
			}
			lines = append(lines, lead+"● "+strconv.Quote(string(r.k))+"="+strconv.Quote(string(r.v)))
		}
		return lines
	}
	for i, c := range n.kids {
		first, rest := "├─", "│ "
		if i == 0 {
			first = "┬─"
		} else {
			if i == len(n.kids)-1 {
				first, rest = "└─", "  "
			}
			lines = append(lines, "├─● "+strconv.Quote(string(minKeyOf(c))))
		}
		for j, l := range drawing(c) {
			if j == 0 {
				lines = append(lines, first+l)
			} else {
				lines = append(lines, rest+l)
			}
		}
	}
	return lines
}

func minKeyOf(n *node) []byte {
	for n.kids != nil {
		n = n.kids[0]
	}
	return n.recs[0].k
}

var errFull = errors.New("no more room")

// writer takes a limited number of bytes.
type writer struct {
	got    []byte
	limit  int
	failed bool
	after  bool // written to after it failed
}

func (w *writer) Write(p []byte) (int, error) {
	if w.failed {
		w.after = true
		return 0, errFull
	}
	if len(w.got)+len(p) > w.limit {
		n := w.limit - len(w.got)
		w.got = append(w.got, p[:n]...)
		w.failed = true
		return n, errFull
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// odDump: the text dump of a tree, to a writer that may fail.
func odDump() {
	b := &builder{c: 100}
	fail := nd.Choice("fail", 2) == 1
	text := func(s string, n int) []byte { // arbitrary in one byte
		x := []byte(s)
		c := nd.Byte("char")
		if n == 0 || fail {
			nd.Assume(c >= 'a' && c <= 'z')
		}
		x[len(x)-1] = c
		return x
	}
	long := func(c byte, n int) []byte {
		x := make([]byte, n)
		for i := range x {
			x[i] = c
		}
		return x
	}
	leaf := func(n int) *node {
		var recs []rec
		for i := 0; i < n; i++ {
			recs = append(recs, b.rec([]kvLen{{3, 4}, {258, 130}, {4, 0}}[(i+n/3)%3]))
		}
		return leafNode(recs)
	}
	var root *node
	switch shape := nd.Choice("shape", 12); shape {
	case 0, 1, 2, 3:
		root = leaf(shape)
	case 4:
		root = leafNode([]rec{{text("k?", 1), text("v?", 0)}})
	case 5:
		root = leafNode([]rec{{text("k?", 0), []byte{}}, {long('m', 300), text(string(long('w', 200)), 1)}, {text("z?", 0), []byte("x")}, {[]byte("z\u00e9\u4e16\u200b\U0001F600"), []byte("\"\\`\t\x00\u00ff")}, {[]byte("\xc3\x28\xe2\x82"), []byte("\u00e9")}})
	case 6:
		root = inner(leaf(2), leaf(1))
	case 7:
		root = inner(leaf(1), leaf(3), leaf(2), leafNode([]rec{{[]byte("\u4e16"), []byte("\u754c")}}))
	case 8:
		root = inner(inner(leaf(2), leaf(1), leaf(3)), inner(leaf(1), leaf(2)), inner(leaf(3), leaf(1)))
	case 9: // height 4
		root = inner(inner(inner(leaf(1), leaf(2)), inner(leaf(2), leaf(1), leaf(1))), inner(inner(leaf(1), leaf(1)), inner(leaf(3), leaf(1))))
	case 10: // hundreds of records in a leaf
		root = inner(b.dense(131*11), b.dense(520*11))
	case 11: // and of children
		var kids []*node
		for i := 0; i < 300; i++ {
			kids = append(kids, leafNode([]rec{b.rec(kvLen{3, 0})}))
		}
		root = inner(kids...)
	}
	t := newTree(root)
	file := nd.TempFile("od")
	t.build(file)
	strict()
	var fs fsm.FileStorage
	fs.Init()
	if err := fs.Open(file, false); err != nil {
		panic(err)
	}
	bpt := new(bptree.BPTree).Init(&fs)
	bpt.Load(fs.PrimarySpace())
	before := fs.Stats()
	want := []byte{}
	for i, l := range drawing(root) {
		if i > 0 {
			want = append(want, '\n')
		}
		want = append(want, l...)
	}
	w := &writer{limit: len(want)}
	if fail {
		// at the start, in the middle or at the end of a line
		lines := drawing(root)
		at := 0
		if len(lines) > 0 {
			i := 0
			if len(lines) < 30 {
				i = nd.Choice("line", len(lines))
			} else {
				i = []int{0, 1, 128, 129, 256, 258, len(lines) - 2, len(lines) - 1}[nd.Choice("line", 8)]
			}
			for _, l := range lines[:i] {
				at += len(l) + 1
			}
			if i > 0 {
				at--
			}
			at += []int{0, 1, 4, len(lines[i]) / 2, len(lines[i]) - 1}[nd.Choice("at", 5)]
		}
		w.limit = at
	}
	err := bpt.Fprint(w)
	nd.Assert(!w.after, "C22:nothing is written after the writer has failed")
	if w.failed {
		nd.Assert(errors.Is(err, errFull), "C22:the error of the writer is returned")
		nd.Reach("failed")
	} else {
		nd.Assert(err == nil, "C22:the dump succeeds")
		nd.Reach("written")
	}
	n := len(want)
	if w.limit < n {
		n = w.limit
		nd.Assert(w.failed, "C22:the dump is not cut short silently")
	}
	nd.Assert(len(w.got) == n && string(w.got) == string(want[:n]), "C22:the dump shows every separator, key and value in order")
	nd.Assert(bpt.NumberOfRecords() == len(t.recs) && fs.Stats() == before, "C22:the dump changes nothing")
	for _, r := range t.recs {
		v, ok := bpt.HasRecord(r.k, true)
		nd.Assert(ok && string(v) == string(r.v), "C22:the dump changes nothing")
	}
	fs.SetPrimarySpace(bpt.Store())
	fs.Close()
}

func init() {
	add(Entry{"OdDump", "C22 C18", "the text dump of twelve trees of height 1 to 4, with up to 520 records in a leaf or 300 leaves, with keys and values of 0 to 300 bytes, some bytes arbitrary, to a writer that fails after any line, at its start, within it or at its end", true, 2, odDump})
}

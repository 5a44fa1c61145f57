package mc

import (
	"bytes"
	"sort"

	"golang.org/x/crypto/sha3"
)

// RLPString and RLPList encode a string and a list of encoded items.
func RLPString(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(rlpHead(0x80, len(b)), b...)
}
func RLPList(items ...[]byte) []byte {
	body := bytes.Join(items, nil)
	return append(rlpHead(0xc0, len(body)), body...)
}
func rlpHead(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for ; n > 0; n >>= 8 {
		l = append([]byte{byte(n)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func Sha3(b []byte) []byte {
	h := sha3.Sum256(b)
	return h[:]
}

type mptItem struct {
	n []byte
	v []byte
}

// MPTRoot calculates the root of the Merkle Patricia trie holding content, and its nodes which are stored by their hash.
func MPTRoot(content map[string]string) ([]byte, map[string][]byte) {
	if len(content) == 0 {
		return nil, nil
	}
	var l []mptItem
	for k, v := range content {
		var n []byte
		for i := 0; i < len(k); i++ {
			n = append(n, k[i]>>4, k[i]&15)
		}
		l = append(l, mptItem{n, []byte(v)})
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].n, l[j].n) < 0 })
	nodes := map[string][]byte{}
	s := mptNode(l, 0, nodes)
	h := Sha3(s)
	nodes[string(h)] = s
	return h, nodes
}

func hexPrefix(leaf bool, n []byte) []byte {
	t := byte(0)
	if leaf {
		t = 0x20
	}
	var r []byte
	if len(n)%2 == 1 {
		r = []byte{t | 0x10 | n[0]}
		n = n[1:]
	} else {
		r = []byte{t}
	}
	for ; len(n) > 0; n = n[2:] {
		r = append(r, n[0]<<4|n[1])
	}
	return r
}

func mptLink(s []byte, nodes map[string][]byte) []byte {
	if len(s) <= 32 {
		return s
	}
	h := Sha3(s)
	nodes[string(h)] = s
	return RLPString(h)
}

func mptNode(l []mptItem, depth int, nodes map[string][]byte) []byte {
	if len(l) == 1 {
		return RLPList(RLPString(hexPrefix(true, l[0].n[depth:])), RLPString(l[0].v))
	}
	first, last := l[0].n, l[len(l)-1].n
	d := depth
	for d < len(first) && first[d] == last[d] {
		d++
	}
	if d > depth {
		return RLPList(RLPString(hexPrefix(false, first[depth:d])), mptLink(mptNode(l, d, nodes), nodes))
	}
	items := make([][]byte, 17)
	for i := range items {
		items[i] = RLPString(nil)
	}
	if len(first) == d {
		items[16] = RLPString(l[0].v)
		l = l[1:]
	}
	for len(l) > 0 {
		x := l[0].n[d]
		e := 1
		for e < len(l) && l[e].n[d] == x {
			e++
		}
		items[x] = mptLink(mptNode(l[:e], d+1, nodes), nodes)
		l = l[e:]
	}
	return RLPList(items...)
}

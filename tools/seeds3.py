"""Planted bugs in the node itself (Go)."""
from seeds import SEEDS


def gseed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo.lstrip('\n'), go=True))


O = 'common/trie/ompt/'
TRIE = '''
package main

import (
	"fmt"
	"strings"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/trie/trie_manager"

	"vgo/mc"
)

var long = strings.Repeat("v", 40)
var _ = fmt.Sprint
var _ db.BucketID

func must[T any](v T, err error) T {
	mc.Must(err)
	return v
}

'''

gseed('C21-ext-key-alias', 'C21', [
    (O + 'extension.go', "			br.children[keys[cnt]] = &leaf{keys: clone(keys[cnt+1:]), value: o}\n", "			br.children[keys[cnt]] = &leaf{keys: keys[cnt+1:], value: o}\n"),
], 'a set which splits an extension in its middle followed by another operation before the trie is hashed', 'the new leaf keeps a buffer which is reused by the next operation, so that the key of the leaf changes',
TRIE + '''func main() {
	d := mc.NewDB()
	t := trie_manager.NewMutable(d, nil)
	m := map[string]string{"\\x00\\x00\\x00\\x01": long, "\\x00\\x00\\x00\\x02": long, "\\x00\\x10\\x00\\x00": "a", "\\xff\\xff\\xff\\xff": "b"}
	for _, k := range []string{"\\x00\\x00\\x00\\x01", "\\x00\\x00\\x00\\x02", "\\x00\\x10\\x00\\x00", "\\xff\\xff\\xff\\xff"} {
		must(t.Set([]byte(k), []byte(m[k])))
	}
	h, _ := mc.MPTRoot(m)
	if g := t.GetSnapshot().Hash(); string(g) != string(h) {
		mc.Bad("root %x instead of %x", g, h)
	}
}
''')

gseed('C21-frozen-branch', 'C21', [
    (O + 'branch.go', "func (n *branch) getChangable(lock *AutoRWUnlock) *branch {\n	if n.state == stateDirty {\n", "func (n *branch) getChangable(lock *AutoRWUnlock) *branch {\n	if n.state < stateHashed {\n"),
], 'a snapshot which is taken and not hashed before the trie is changed further', 'changes after a snapshot appear in the snapshot',
TRIE + '''func main() {
	d := mc.NewDB()
	t := trie_manager.NewMutable(d, nil)
	must(t.Set([]byte("\\x11"), []byte("a")))
	must(t.Set([]byte("\\x21"), []byte("b")))
	s := t.GetSnapshot()
	must(t.Set([]byte("\\x11"), []byte("c")))
	if v := must(s.Get([]byte("\\x11"))); string(v) != "a" {
		mc.Bad("the snapshot has %q", v)
	}
}
''')

gseed('C21-flush-parent-first', 'C21', [
    (O + 'extension.go', """	if err := n.next.flush(m, append(nibs, n.keys...)); err != nil {
		return err
	}
	if err := n.nodeBase.flushBaseInLock(m, nil); err != nil {
		return err
	}
""", """	if err := n.nodeBase.flushBaseInLock(m, nil); err != nil {
		return err
	}
	if err := n.next.flush(m, append(nibs, n.keys...)); err != nil {
		return err
	}
"""),
], 'a crash in the middle of a flush of a trie with an extension', 'a node is in the database without the nodes below it',
TRIE + '''func main() {
	d := mc.NewDB()
	t := trie_manager.NewMutable(d, nil)
	must(t.Set([]byte("\\x00\\x00\\x01"), []byte(long)))
	must(t.Set([]byte("\\x00\\x00\\x02"), []byte(long)))
	s := t.GetSnapshot()
	mc.Must(s.Flush())
	for n := 0; n <= len(d.Log); n++ {
		c := d.Cut(nil, n)
		bk, _ := c.GetBucket(db.MerkleTrie)
		if has, _ := bk.Has(s.Hash()); has {
			if _, err := trie_manager.NewImmutable(c, s.Hash()).Get([]byte("\\x00\\x00\\x01")); err != nil {
				mc.Bad("after write %d: %v", n, err)
			}
		}
	}
}
''')

gseed('C21-flush-mark', 'C21', [
    (O + 'leaf.go', """	if err := n.nodeBase.flushBaseInLock(m, nil); err != nil {
		return err
	}
	lock.Migrate()
	n.state = stateFlushed
	return nil
""", """	err := n.nodeBase.flushBaseInLock(m, nil)
	lock.Migrate()
	n.state = stateFlushed
	return err
"""),
], 'a failing database write during a flush which is then repeated', 'the repeated flush leaves out the node whose write failed',
TRIE + '''func main() {
	for fail := 1; fail < 4; fail++ {
		d := mc.NewDB()
		t := trie_manager.NewMutable(d, nil)
		must(t.Set([]byte("\\x11"), []byte(long)))
		must(t.Set([]byte("\\x21"), []byte(long+"b")))
		s := t.GetSnapshot()
		d.FailAt = fail
		if err := s.Flush(); err == nil {
			mc.Bad("no error")
		}
		mc.Must(s.Flush())
		if _, err := trie_manager.NewImmutable(d, s.Hash()).Get([]byte("\\x11")); err != nil {
			mc.Bad("%v", err)
		}
		if _, err := trie_manager.NewImmutable(d, s.Hash()).Get([]byte("\\x21")); err != nil {
			mc.Bad("%v", err)
		}
	}
}
''')

gseed('C21-delete-embedded', 'C21', [
    (O + 'branch.go', "			case *extension:\n				return nn.getKeyPrepended([]byte{byte(idx)}), true, ov, nil\n			case *branch:\n",
     "			case *extension:\n				if nn.hashValue != nil || nn.state < stateHashed {\n					return nn.getKeyPrepended([]byte{byte(idx)}), true, ov, nil\n				}\n			case *branch:\n"),
], 'a deletion which leaves a branch with one small (embedded) extension, after the trie was hashed', 'the branch is not merged with the extension and the root depends on the history',
TRIE + '''func main() {
	d := mc.NewDB()
	t := trie_manager.NewMutable(d, nil)
	must(t.Set([]byte("\\x12\\x34"), []byte("a")))
	must(t.Set([]byte("\\x12\\x35"), []byte("b")))
	must(t.Set([]byte("\\x52"), []byte("c")))
	t.GetSnapshot().Hash()
	must(t.Delete([]byte("\\x52")))
	h, _ := mc.MPTRoot(map[string]string{"\\x12\\x34": "a", "\\x12\\x35": "b"})
	if g := t.GetSnapshot().Hash(); string(g) != string(h) {
		mc.Bad("root %x instead of %x", g, h)
	}
}
''')

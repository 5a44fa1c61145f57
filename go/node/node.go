// Package node runs the block manager, the service and the locators of a node without a network
// and without consensus: who calls it decides which blocks there are and who votes for them.
package node

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"sync"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/wallet"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/transaction"
	"vgo/mc"
)

var (
	wmu     sync.Mutex
	wallets = map[int]module.Wallet{}
)

// Wallet gives the n-th wallet; the first ones are of the validators.
func Wallet(n int) module.Wallet {
	wmu.Lock()
	defer wmu.Unlock()
	if w := wallets[n]; w != nil {
		return w
	}
	sk, err := crypto.ParsePrivateKey(append(make([]byte, 30), 2, byte(n+1)))
	mc.Must(err)
	w, err := wallet.NewFromPrivateKey(sk)
	mc.Must(err)
	wallets[n] = w
	return w
}

// Gate holds the writes into a bucket back while it is closed.
type Gate struct {
	db.Database
	ID   db.BucketID
	mu   sync.Mutex
	cond *sync.Cond
	shut bool
}

func NewGate(d db.Database, id db.BucketID) *Gate {
	g := &Gate{Database: d, ID: id}
	g.cond = sync.NewCond(&g.mu)
	return g
}
func (g *Gate) Shut(v bool) {
	g.mu.Lock()
	g.shut = v
	g.mu.Unlock()
	g.cond.Broadcast()
}

type gated struct {
	db.Bucket
	g *Gate
}

func (g *Gate) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := g.Database.GetBucket(id)
	if id == g.ID && err == nil {
		b = gated{b, g}
	}
	return b, err
}
func (b gated) Set(k, v []byte) error {
	b.g.mu.Lock()
	for b.g.shut {
		b.g.cond.Wait()
	}
	b.g.mu.Unlock()
	return b.Bucket.Set(k, v)
}

// Node is a node on a database.
type Node struct {
	*mc.Chain
	BM    module.BlockManager
	Twist *Twist // what the node proposes instead of what it should
	cid   int
}

// Twist proposes what it is told to.
type Twist struct {
	module.ServiceManager
	On               bool
	Patches, Normals []module.Transaction
}

func (t *Twist) GetPatches(parent module.Transition, bi module.BlockInfo) module.TransactionList {
	if !t.On {
		return t.ServiceManager.GetPatches(parent, bi)
	}
	return t.TransactionListFromSlice(t.Patches, module.BlockVersion2)
}

func (t *Twist) ProposeTransition(parent module.Transition, bi module.BlockInfo, csi module.ConsensusInfo) (module.Transition, error) {
	if !t.On {
		return t.ServiceManager.ProposeTransition(parent, bi, csi)
	}
	return t.CreateTransition(parent, t.TransactionListFromSlice(t.Normals, module.BlockVersion2), bi, csi, true)
}

func (n *Node) ServiceManager() module.ServiceManager {
	if n.Twist != nil {
		return n.Twist
	}
	return n.Chain.ServiceManager()
}

func (n *Node) CID() int { return n.cid }

func (n *Node) BlockManager() module.BlockManager { return n.BM }

// Open starts a node on what the database has.
func Open(d db.Database, ee *mc.EE, genesis any, me int) (n *Node, err error) {
	return OpenTwisted(d, ee, genesis, me, nil)
}

// OpenTwisted starts a node which may propose something else.
func OpenTwisted(d db.Database, ee *mc.EE, genesis any, me int, tw *Twist) (n *Node, err error) {
	js, err := json.Marshal(genesis)
	mc.Must(err)
	n = &Node{Chain: mc.NewChain(d, ee)}
	n.SetWallet(Wallet(me))
	n.SetGenesis(js)
	g, err := transaction.NewGenesisTransaction(js)
	mc.Must(err)
	n.cid = g.(transaction.GenesisTransaction).CID()
	if tw != nil {
		tw.ServiceManager = n.Chain.ServiceManager()
		n.Twist = tw
	}
	n.BM, err = block.NewManager(n, nil, nil)
	if err != nil {
		n.Chain.Close()
		return nil, err
	}
	return n, nil
}

// Close ends the node. What is not in the database is lost.
func (n *Node) Close() {
	n.BM.Term()
	n.SM.Term()
	if lm, err := n.GetLocatorManager(); err == nil {
		lm.Term()
	}
	n.Chain.Close()
}

// Genesis is one with these validators and accounts.
func Genesis(vals int, chain mc.J, accounts ...any) mc.J {
	vl := []any{}
	for i := 0; i < vals; i++ {
		vl = append(vl, Wallet(i).Address().String())
	}
	c := mc.J{"platform": "havah", "revision": "0x4", "validatorList": vl,
		"fee": mc.J{"stepPrice": "0x0", "stepLimit": mc.J{"invoke": "0x9502f900", "query": "0x2faf080"}},
		"havah": mc.J{"usdtPrice": "0x1", "termPeriod": "0x64", "issueReductionCycle": "0x168", "issueLimit": "0x64", "issueAmount": "0x64", "hooverBudget": "0x0"}}
	for k, v := range chain {
		c[k] = v
	}
	return mc.J{"accounts": accounts, "chain": c, "message": "x", "nid": "0x1"}
}

// Votes is the proof that validators voted for the block at these times.
func Votes(b module.BlockData, round int32, ts int64, who ...int) module.CommitVoteSet {
	var vs []*consensus.VoteMessage
	if b.Height() > 0 {
		for _, i := range who {
			vs = append(vs, Precommit(b, i, round, ts))
		}
	}
	return consensus.NewCommitVoteList(nil, vs...)
}

var psid = &consensus.PartSetID{Count: 1, Hash: bytes.Repeat([]byte{7}, 32)}

// Precommit is the vote of one.
func Precommit(b module.BlockData, i int, round int32, ts int64) *consensus.VoteMessage {
	return consensus.NewVoteMessage(Wallet(i), consensus.VoteTypePrecommit, b.Height(), round, b.ID(), psid, ts, nil, nil, 0)
}

type done struct {
	bc  module.BlockCandidate
	err error
}

// Propose makes a block on the parent.
func (n *Node) Propose(parent []byte, v module.CommitVoteSet) (module.BlockCandidate, error) {
	ch := make(chan done, 1)
	_, err := n.BM.Propose(parent, v, func(bc module.BlockCandidate, err error) { ch <- done{bc, err} })
	if err != nil {
		return nil, err
	}
	d := <-ch
	return d.bc, d.err
}

// Take takes a block over.
func (n *Node) Take(bs []byte, flags int) (module.BlockCandidate, error) {
	ch := make(chan done, 1)
	_, err := n.BM.Import(bytes.NewReader(bs), flags, func(bc module.BlockCandidate, err error) { ch <- done{bc, err} })
	if err != nil {
		return nil, err
	}
	d := <-ch
	return d.bc, d.err
}

// Last is the last block.
func (n *Node) Last() module.Block {
	b, err := n.BM.GetLastBlock()
	mc.Must(err)
	return b
}

// Bytes is what is sent of a block.
func Bytes(b interface{ Marshal(w io.Writer) error }) []byte {
	var w bytes.Buffer
	mc.Must(b.Marshal(&w))
	return w.Bytes()
}

// With is a block like b whose parts are changed.
func With(bs []byte, f func(h *block.V2HeaderFormat, d *block.V2BodyFormat)) []byte {
	var h block.V2HeaderFormat
	var d block.V2BodyFormat
	r := bytes.NewReader(bs)
	mc.Must(codec.BC.Unmarshal(r, &h))
	mc.Must(codec.BC.Unmarshal(r, &d))
	f(&h, &d)
	var w bytes.Buffer
	_, err := w.ReadFrom(block.NewBlockReaderFromFormat(&h, &d))
	mc.Must(err)
	return w.Bytes()
}

// SetTxs makes these the transactions of a block.
func (n *Node) SetTxs(h *block.V2HeaderFormat, d *block.V2BodyFormat, txs ...module.Transaction) {
	l := make([]module.Transaction, len(txs))
	d.NormalTransactions = nil
	for i, tx := range txs {
		l[i] = tx
		d.NormalTransactions = append(d.NormalTransactions, tx.Bytes())
	}
	h.NormalTransactionsHash = n.SM.TransactionListFromSlice(l, module.BlockVersion2).Hash()
}

// Tx makes a signed transaction of the n-th user.
func Tx(from int, js mc.J) module.Transaction {
	w := Wallet(100 + from)
	t := mc.J{"version": "0x3", "from": w.Address().String(), "nid": "0x1", "stepLimit": "0x3b9aca00"}
	for k, v := range js {
		t[k] = v
	}
	bs, err := json.Marshal(t)
	mc.Must(err)
	tx, err := transaction.NewTransactionFromJSON(bs)
	mc.Must(err)
	sig, err := w.Sign(tx.ID())
	mc.Must(err)
	t["signature"] = base64.StdEncoding.EncodeToString(sig)
	bs, err = json.Marshal(t)
	mc.Must(err)
	tx, err = transaction.NewTransactionFromJSON(bs)
	mc.Must(err)
	mc.Must(tx.Verify())
	return tx
}

func Hex(v int64) string { return fmt.Sprintf("0x%x", v) }

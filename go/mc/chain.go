package mc

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"github.com/icon-project/goloop/chain/base"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/common/txlocator"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/havah"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service"
	"github.com/icon-project/goloop/service/eeproxy"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/service/transaction"
	"github.com/icon-project/goloop/service/txresult"
)

// J is a JSON object.
type J = map[string]any

func init() {
	log.GlobalLogger().SetLevel(log.PanicLevel)
	log.GlobalLogger().SetConsoleLevel(log.PanicLevel)
}

// Chain is what the service of a node needs around it: the rest of the node is not there.
type Chain struct {
	module.Chain
	DB      db.Database
	Log     log.Logger
	Plt     base.Platform
	SM      module.ServiceManager
	EEM     eeproxy.Manager
	Level   int
	MaxTx   int
	genesis []byte
	lm      module.LocatorManager
	wallet  module.Wallet
	dir     string
	nonce   int
}

func (c *Chain) Database() db.Database                           { return c.DB }
func (c *Chain) Wallet() module.Wallet                           { return c.wallet }
func (c *Chain) SetWallet(w module.Wallet)                       { c.wallet = w }
func (c *Chain) SetGenesis(js []byte)                            { c.genesis = js }
func (c *Chain) NID() int                                        { return 1 }
func (c *Chain) CID() int                                        { return 1 }
func (c *Chain) NetID() int                                      { return 1 }
func (c *Chain) Channel() string                                 { return "havah" }
func (c *Chain) ConcurrencyLevel() int                           { return c.Level }
func (c *Chain) NormalTxPoolSize() int                           { return 5000 }
func (c *Chain) PatchTxPoolSize() int                            { return 2 }
func (c *Chain) MaxBlockTxBytes() int                            { return 2 * 1024 * 1024 }
func (c *Chain) TransactionTimeout() time.Duration               { return 20 * time.Second }
func (c *Chain) DefaultWaitTimeout() time.Duration               { return time.Second }
func (c *Chain) MaxWaitTimeout() time.Duration                   { return time.Second }
func (c *Chain) ChildrenLimit() int                              { return 1 }
func (c *Chain) NephewsLimit() int                               { return 1 }
func (c *Chain) ValidateTxOnSend() bool                          { return false }
func (c *Chain) Genesis() []byte                                 { return c.genesis }
func (c *Chain) GenesisStorage() module.GenesisStorage           { return gstore{c} }
func (c *Chain) PatchDecoder() module.PatchDecoder               { return consensus.DecodePatch }
func (c *Chain) PlatformName() string                            { return "havah" }
func (c *Chain) ServiceManager() module.ServiceManager           { return c.SM }
func (c *Chain) Regulator() module.Regulator                     { return c }
func (c *Chain) MetricContext() context.Context                  { return context.Background() }
func (c *Chain) Logger() log.Logger                              { return c.Log }
func (c *Chain) WalletFor(dsa string) module.BaseWallet          { return nil }
func (c *Chain) NetworkManager() module.NetworkManager           { return noNet{} }
func (c *Chain) BlockManager() module.BlockManager               { return nil }
func (c *Chain) Consensus() module.Consensus                     { return nil }
func (c *Chain) DoDBTask(f func(database db.Database))           { f(c.DB) }
func (c *Chain) MaxTxCount() int                                 { return c.MaxTx }
func (c *Chain) OnPropose(now time.Time)                         {}
func (c *Chain) CommitTimeout() time.Duration                    { return time.Millisecond }
func (c *Chain) MinCommitTimeout() time.Duration                 { return time.Millisecond }
func (c *Chain) OnTxExecution(int, time.Duration, time.Duration) {}
func (c *Chain) SetBlockInterval(i, d time.Duration)             {}
func (c *Chain) CommitVoteSetDecoder() module.CommitVoteSetDecoder {
	return c.Plt.CommitVoteSetDecoder()
}
func (c *Chain) GetLocatorManager() (module.LocatorManager, error) {
	if c.lm == nil {
		lm, err := txlocator.NewManager(c.DB, c.Log)
		if err != nil {
			return nil, err
		}
		c.lm = lm
	}
	return c.lm, nil
}

type gstore struct{ c *Chain }

func (g gstore) CID() (int, error)                 { return 1, nil }
func (g gstore) NID() (int, error)                 { return 1, nil }
func (g gstore) Height() int64                     { return 0 }
func (g gstore) Type() (module.GenesisType, error) { return module.GenesisNormal, nil }
func (g gstore) Genesis() []byte                   { return g.c.genesis }
func (g gstore) Get(key []byte) ([]byte, error)    { return nil, fmt.Errorf("no such data") }

// NewChain gives a chain without blocks; ee, if any, runs its contracts.
func NewChain(dbase db.Database, ee *EE) *Chain {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	l.SetConsoleLevel(log.PanicLevel)
	l.SetOutput(io.Discard)
	if os.Getenv("VGO_LOG") != "" {
		l.SetLevel(log.TraceLevel)
		l.SetConsoleLevel(log.TraceLevel)
		l.SetOutput(os.Stderr)
	}
	plt, err := havah.NewPlatform("", 1)
	Must(err)
	dir, err := os.MkdirTemp("", "vgo")
	Must(err)
	c := &Chain{DB: dbase, Log: l, Plt: plt, Level: 1, MaxTx: 1000, dir: dir}
	if ee != nil {
		sock := filepath.Join(dir, "s")
		c.EEM, err = eeproxy.NewManager("unix", sock, l, ee)
		Must(err)
		go c.EEM.Loop()
		Must(c.EEM.SetInstances(ee.N, ee.N, ee.N))
	}
	c.SM, err = service.NewManager(c, nil, c.EEM, plt, filepath.Join(dir, "c"))
	Must(err)
	return c
}

func (c *Chain) Close() {
	if c.EEM != nil {
		c.EEM.Close()
	}
	os.RemoveAll(c.dir)
}

// Block is the result of an executed list of transactions.
type Block struct {
	C      *Chain
	H      int64
	TS     int64
	T      module.Transition
	Parent *Block
	Txs    []module.Transaction
	Res    []byte
	VL     module.ValidatorList
	Rcts   []txresult.Receipt
}

type cbs struct{ v, e chan error }

func (x cbs) OnValidate(t module.Transition, e error) { x.v <- e }
func (x cbs) OnExecute(t module.Transition, e error)  { x.e <- e }

func run(t module.Transition) error {
	x := cbs{make(chan error, 1), make(chan error, 1)}
	if _, err := t.Execute(x); err != nil {
		return err
	}
	if err := <-x.v; err != nil {
		return fmt.Errorf("validation: %w", err)
	}
	if err := <-x.e; err != nil {
		return fmt.Errorf("execution: %w", err)
	}
	return nil
}

func (c *Chain) finish(p *Block, t module.Transition, h, ts int64) (*Block, error) {
	if err := run(t); err != nil {
		return nil, err
	}
	b := &Block{C: c, H: h, TS: ts, T: t, Parent: p, Res: t.Result(), VL: t.NextValidators()}
	for i := t.NormalTransactions().Iterator(); i.Has(); i.Next() {
		tx, _, err := i.Get()
		Must(err)
		b.Txs = append(b.Txs, tx)
	}
	for i := t.NormalReceipts().Iterator(); i.Has(); i.Next() {
		r, err := i.Get()
		Must(err)
		b.Rcts = append(b.Rcts, r.(txresult.Receipt))
	}
	return b, nil
}

// Begin makes block 0 out of a genesis transaction.
func (c *Chain) Begin(genesis any) *Block {
	js, err := json.Marshal(genesis)
	Must(err)
	c.genesis = js
	tx, err := transaction.NewGenesisTransaction(js)
	Must(err)
	t0, err := c.SM.CreateInitialTransition(nil, nil)
	Must(err)
	t, err := c.SM.CreateTransition(t0, c.list(tx), common.NewBlockInfo(0, TS0), nil, true)
	Must(err)
	b, err := c.finish(nil, t, 0, TS0)
	Must(err)
	Must(c.SM.Finalize(t, module.FinalizeNormalTransaction|module.FinalizePatchTransaction|module.FinalizeResult))
	for _, r := range b.Rcts {
		if r.Status() != module.StatusSuccess {
			Must(fmt.Errorf("genesis fails with status %v", r.Status()))
		}
	}
	return b
}

// TS0 is the time of the first block, in microseconds; a block comes every second.
const TS0 = int64(1_700_000_000_000_000)

func (c *Chain) list(txs ...module.Transaction) module.TransactionList {
	l := make([]module.Transaction, len(txs))
	copy(l, txs)
	return transaction.NewTransactionListFromSlice(c.DB, l)
}

// Vote is who proposed and who voted for the block before.
type Vote struct {
	Proposer module.Address
	Voters   module.ValidatorList
	Voted    []bool
}

func (v *Vote) csi() module.ConsensusInfo {
	if v == nil {
		return nil
	}
	return common.NewConsensusInfo(v.Proposer, v.Voters, v.Voted)
}

// Base gives the base transaction which the proposer of a block on b would make, or nil.
func (b *Block) Base(v *Vote) module.Transaction {
	ws := b.World()
	tx, err := b.C.Plt.NewBaseTransaction(state.NewWorldContext(ws, b.bi(), v.csi(), b.C.Plt))
	Must(err)
	return tx
}

func (b *Block) bi() module.BlockInfo { return common.NewBlockInfo(b.H+1, b.TS+1_000_000) }

// Raw executes exactly these transactions on b; valid tells whether they were validated before.
func (b *Block) Raw(v *Vote, valid bool, txs ...module.Transaction) (*Block, error) {
	bi := b.bi()
	t, err := b.C.SM.CreateTransition(b.T, b.C.list(txs...), bi, v.csi(), valid)
	if err != nil {
		return nil, err
	}
	return b.C.finish(b, t, bi.Height(), bi.Timestamp())
}

// Next executes transactions on b after the base transaction the block needs, if any.
func (b *Block) Next(v *Vote, txs ...module.Transaction) (*Block, error) {
	if tx := b.Base(v); tx != nil {
		txs = append([]module.Transaction{tx}, txs...)
	}
	return b.Raw(v, true, txs...)
}

// Propose makes the next block out of the pool.
func (b *Block) Propose(v *Vote) (*Block, error) {
	bi := b.bi()
	t, err := b.C.SM.ProposeTransition(b.T, bi, v.csi())
	if err != nil {
		return nil, err
	}
	return b.C.finish(b, t, bi.Height(), bi.Timestamp())
}

// Flush stores the world of the block, so that it can be queried by its result.
func (b *Block) Flush() {
	Must(service.FinalizeTransition(b.T, module.FinalizeResult|module.KeepingParent, false))
}

// Commit stores everything of the block.
func (b *Block) Commit() {
	Must(b.C.SM.Finalize(b.T, module.FinalizeNormalTransaction|module.FinalizePatchTransaction|module.FinalizeResult))
}

type result struct {
	StateHash, PatchReceiptHash, NormalReceiptHash, ExtensionData, BTPData []byte
}

// Root is the identity of the world after the block: accounts, extension, BTP and validators.
func (b *Block) Root() string {
	var r result
	_, err := codec.BC.UnmarshalFromBytes(b.Res, &r)
	Must(err)
	return fmt.Sprintf("%x/%x/%x/%x", r.StateHash, r.ExtensionData, r.BTPData, b.VL.Hash())
}

// Reload lets the block forget how it was made: what comes next starts from what is stored.
func (b *Block) Reload() *Block {
	b.Flush()
	t, err := b.C.SM.CreateInitialTransition(b.Res, b.VL)
	Must(err)
	b.T, b.Parent, b.Txs, b.Rcts = t, nil, nil, nil
	return b
}

// World gives the state after the block, which is flushed before.
func (b *Block) World() state.WorldState {
	b.Flush()
	var r result
	_, err := codec.BC.UnmarshalFromBytes(b.Res, &r)
	Must(err)
	vss, err := state.ValidatorSnapshotFromList(b.C.DB, b.VL)
	Must(err)
	ess := b.C.Plt.NewExtensionSnapshot(b.C.DB, r.ExtensionData)
	ws, err := state.WorldStateFromSnapshot(state.NewWorldSnapshot(b.C.DB, r.StateHash, vss, ess, r.BTPData))
	Must(err)
	return ws
}

// Query calls a read-only method of a contract in the state after the block.
func (b *Block) Query(to module.Address, method string, params J) (any, error) {
	b.Flush()
	js := J{"to": to.String(), "dataType": "call", "data": J{"method": method}}
	if params != nil {
		js["data"].(J)["params"] = params
	}
	bs, err := json.Marshal(js)
	Must(err)
	return b.C.SM.Call(b.Res, b.VL, bs, b.bi())
}

// Guess estimates a transaction at the block.
func (b *Block) Guess(tx []byte) (module.Receipt, error) {
	return b.C.SM.ExecuteTransaction(b.Res, b.VL.Hash(), tx, b.bi())
}

func (b *Block) Balance(a module.Address) *big.Int {
	b.Flush()
	v, err := b.C.SM.GetBalance(b.Res, a)
	Must(err)
	return v
}

func Hex(v any) string {
	switch x := v.(type) {
	case int:
		return fmt.Sprintf("0x%x", x)
	case int64:
		return fmt.Sprintf("0x%x", x)
	case *big.Int:
		return "0x" + x.Text(16)
	}
	panic(fmt.Sprintf("%T", v))
}

// User gives the address of the n-th user, Score the n-th contract.
func User(n int) module.Address {
	return common.MustNewAddressFromString(fmt.Sprintf("hx%040x", 0xabc000+n))
}
func Score(n int) module.Address {
	return common.MustNewAddressFromString(fmt.Sprintf("cx%040x", 0xdef000+n))
}
func Addr(s string) module.Address {
	return common.MustNewAddressFromString(s)
}

var System = Addr("cx0000000000000000000000000000000000000000")

// Tx makes a transaction without a signature.
func (c *Chain) Tx(from, to module.Address, value any, steps int64, extra J) module.Transaction {
	c.nonce++
	js := J{"version": "0x3", "from": from.String(), "to": to.String(), "stepLimit": Hex(steps), "nid": "0x1",
		"timestamp": Hex(TS0 + 1), "nonce": Hex(c.nonce)}
	if value != nil {
		js["value"] = Hex(value)
	}
	for k, v := range extra {
		js[k] = v
	}
	bs, err := json.Marshal(js)
	Must(err)
	tx, err := transaction.NewTransactionFromJSON(bs)
	Must(err)
	return tx
}

// Call makes a transaction which calls a method.
func (c *Chain) Call(from, to module.Address, value any, method string, params J) module.Transaction {
	d := J{"method": method}
	if params != nil {
		d["params"] = params
	}
	return c.Tx(from, to, value, 1_000_000_000, J{"dataType": "call", "data": d})
}

// ICX makes a transfer.
func (c *Chain) ICX(from, to module.Address, value any) module.Transaction {
	return c.Tx(from, to, value, 1_000_000_000, nil)
}

type noNet struct{ module.NetworkManager }

func (noNet) RegisterReactorForStreams(string, module.ProtocolInfo, module.Reactor, []module.ProtocolInfo, uint8, module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	return nil, nil
}

// Package cons runs the real consensus engine against a network, a disk and a
// block manager which do what a check tells them to.
package cons

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/goloop/block"
	"github.com/icon-project/goloop/btp"
	"github.com/icon-project/goloop/chain/base"
	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/crypto"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/consensus"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/state"

	"vgo/mc"
	"vgo/mctime"
	"vgo/node"
)

var _ = block.NewManager

const (
	Prevote   = consensus.VoteTypePrevote
	Precommit = consensus.VoteTypePrecommit
)

// ---- blocks --------------------------------------------------------------------------------------------

// Blk is a block: its name tells whether it can be read and imported.
type Blk struct {
	H     int64
	Prop  int // index of the proposer
	Name  string
	Prev  []byte
	id    []byte
	raw   []byte
	vl    module.ValidatorList
	psid  *consensus.PartSetID
	part  [][]byte
	votes module.CommitVoteSet
}

// Valid tells whether nodes accept the block.
func (b *Blk) Valid() bool { return !strings.HasPrefix(b.Name, "X") }

type txl struct{ module.TransactionList }

func (txl) Hash() []byte { return nil }

func (b *Blk) Version() int                               { return 2 }
func (b *Blk) ID() []byte                                 { return b.id }
func (b *Blk) Height() int64                              { return b.H }
func (b *Blk) PrevID() []byte                             { return b.Prev }
func (b *Blk) NextValidatorsHash() []byte                 { return b.vl.Hash() }
func (b *Blk) NextValidators() module.ValidatorList       { return b.vl }
func (b *Blk) Votes() module.CommitVoteSet                { return b.votes }
func (b *Blk) NormalTransactions() module.TransactionList { return txl{} }
func (b *Blk) PatchTransactions() module.TransactionList  { return txl{} }
func (b *Blk) Timestamp() int64                           { return b.H * 1000 }
func (b *Blk) LogsBloom() module.LogsBloom                { return nil }
func (b *Blk) Result() []byte                             { return nil }
func (b *Blk) MarshalHeader(w io.Writer) error            { _, err := w.Write(b.raw); return err }
func (b *Blk) MarshalBody(w io.Writer) error              { return nil }
func (b *Blk) Marshal(w io.Writer) error                  { return b.MarshalHeader(w) }
func (b *Blk) ToJSON(module.JSONVersion) (any, error)     { return nil, nil }
func (b *Blk) NewBlock(module.Transition) module.Block    { return nil }
func (b *Blk) Hash() []byte                               { return b.id }
func (b *Blk) NetworkSectionFilter() module.BitSetFilter  { return module.BitSetFilter{} }
func (b *Blk) BTPDigest() (module.BTPDigest, error)       { return btp.ZeroDigest, nil }
func (b *Blk) BTPSection() (module.BTPSection, error)     { return btp.ZeroBTPSection, nil }
func (b *Blk) Copy() module.Block                         { return b }
func (b *Blk) Dup() module.BlockCandidate                 { return b }
func (b *Blk) Dispose()                                   {}
func (b *Blk) NextProofContextMap() (module.BTPProofContextMap, error) {
	return btp.ZeroProofContextMap, nil
}
func (b *Blk) NTSHashEntryList() (module.NTSHashEntryList, error) {
	return module.ZeroNTSHashEntryList{}, nil
}
func (b *Blk) Proposer() module.Address {
	if b.Prop < 0 {
		return nil
	}
	return node.Wallet(b.Prop).Address()
}

// ---- world ---------------------------------------------------------------------------------------------

// World is what does not change: the validators and the blocks there may be.
type World struct {
	N      int
	VL     module.ValidatorList
	Gen    *Blk
	db     db.Database
	lg     log.Logger
	blocks map[string]*Blk // by key
	byPSID map[string]*Blk
	NID    []byte
	msgs   map[string][]byte
	idx    map[string]int
	signer map[string]int // of votes which nodes sent
	pad    int
}

func quiet() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	l.SetConsoleLevel(log.PanicLevel)
	l.SetOutput(io.Discard)
	if os.Getenv("VGO_LOG") != "" {
		l.SetLevel(log.TraceLevel)
		l.SetConsoleLevel(log.TraceLevel)
		l.SetOutput(os.Stderr)
	}
	return l
}

// NewWorld has n validators; blocks are of pad bytes more than they need.
func NewWorld(n, pad int) *World {
	w := &World{N: n, db: db.NewMapDB(), lg: quiet(), blocks: map[string]*Blk{}, byPSID: map[string]*Blk{}, msgs: map[string][]byte{},
		idx: map[string]int{}, signer: map[string]int{}, pad: pad}
	var vs []module.Validator
	for i := 0; i < n; i++ {
		v, err := state.ValidatorFromAddress(node.Wallet(i).Address())
		mc.Must(err)
		vs = append(vs, v)
		w.idx[string(node.Wallet(i).Address().ID())] = i
	}
	var err error
	w.VL, err = state.ValidatorSnapshotFromSlice(w.db, vs)
	mc.Must(err)
	w.NID = codec.MustMarshalToBytes(1)
	w.Gen = w.Block(0, -1, "G", nil)
	return w
}

// Block gives the block of a name.
func (w *World) Block(h int64, prop int, name string, prev []byte) *Blk {
	k := fmt.Sprintf("%d/%d/%s/%x", h, prop, name, prev)
	if b := w.blocks[k]; b != nil {
		return b
	}
	b := &Blk{H: h, Prop: prop, Name: name, Prev: prev, vl: w.VL}
	b.raw = []byte("B" + k + "\n")
	if strings.HasPrefix(name, "U") {
		b.raw[0] = 'U'
	}
	b.raw = append(b.raw, bytes.Repeat([]byte{'.'}, w.pad)...)
	b.id = crypto.SHA3Sum256(b.raw)
	psb := consensus.NewPartSetBuffer(consensus.ConfigBlockPartSize)
	mc.Must(b.MarshalHeader(psb))
	ps := psb.PartSet()
	b.psid = ps.ID()
	for i := 0; i < ps.Parts(); i++ {
		b.part = append(b.part, ps.GetPart(i).Bytes())
	}
	w.blocks[k] = b
	w.byPSID[psidKey(b.psid)] = b
	return b
}

func psidKey(p *consensus.PartSetID) string {
	if p == nil {
		return ""
	}
	return fmt.Sprintf("%d:%x", p.Count, p.Hash)
}

func (w *World) proposer(h int64, r int32) int { return int((h + int64(r)) % int64(w.N)) }

// ---- messages ------------------------------------------------------------------------------------------

var bc = codec.BC

const nid = 1

func enc(v any) []byte { return bc.MustMarshalToBytes(v) }

// Proposal is one signed by a validator.
func (w *World) Proposal(by int, h int64, r int32, b *Blk, pol int32) []byte {
	k := fmt.Sprintf("P%d/%d/%d/%x/%d", by, h, r, b.id, pol)
	if m := w.msgs[k]; m != nil {
		return m
	}
	m := consensus.NewProposalMessage()
	m.Height, m.Round, m.BlockPartSetID, m.POLRound, m.NID = h, r, b.psid, pol, nid
	mc.Must(m.Sign(node.Wallet(by)))
	w.msgs[k] = enc(m)
	return w.msgs[k]
}

// Part is a part of a block.
func (w *World) Part(b *Blk, i int) []byte {
	return enc(&consensus.BlockPartMessage{Height: b.H, Index: uint16(i), BlockPart: b.part[i]})
}

// Vote is one signed by a validator; b may be nil.
func (w *World) Vote(by int, t consensus.VoteType, h int64, r int32, b *Blk, later int) []byte {
	var id []byte
	if b != nil {
		id = b.id
	}
	k := fmt.Sprintf("V%d/%d/%d/%d/%x/%d", by, t, h, r, id, later)
	if m := w.msgs[k]; m != nil {
		return m
	}
	bid, psid := w.NID, (*consensus.PartSetIDAndAppData)(nil)
	if b != nil {
		bid, psid = b.id, b.psid.WithAppData(uint64(nid)<<16)
	}
	m := consensus.NewVoteMessage(node.Wallet(by), t, h, r, bid, nil, 0, nil, nil, 0)
	m.SetRoundDecision(bid, psid, nil)
	m.Timestamp = mctime.Base.UnixMicro() + int64(later)
	mc.Must(m.Sign(node.Wallet(by)))
	w.msgs[k] = enc(m)
	w.signer[string(w.msgs[k])] = by
	return w.msgs[k]
}

// ---- disk ----------------------------------------------------------------------------------------------

// Disk is what a node keeps over a crash.
type Disk struct {
	wal    map[string][][]byte
	synced map[string]int
	blocks []*Blk // finalized ones
}

func (d *Disk) clone() *Disk {
	n := &Disk{map[string][][]byte{}, map[string]int{}, append([]*Blk(nil), d.blocks...)}
	for k, v := range d.wal {
		n.wal[k] = append([][]byte(nil), v...)
	}
	for k, v := range d.synced {
		n.synced[k] = v
	}
	return n
}

type walm struct{ n *Node }

func (m walm) OpenForRead(id string) (consensus.WALReader, error) {
	id = path.Base(id)
	l, ok := m.n.disk.wal[id]
	if !ok {
		return nil, fmt.Errorf("%w: %s", os.ErrNotExist, id)
	}
	return &walr{l}, nil
}

func (m walm) OpenForWrite(id string, cfg *consensus.WALConfig) (consensus.WALWriter, error) {
	id = path.Base(id)
	if _, ok := m.n.disk.wal[id]; !ok {
		m.n.disk.wal[id] = nil
	}
	return walw{m.n, id}, nil
}

type walr struct{ l [][]byte }

func (r *walr) ReadBytes() ([]byte, error) {
	if len(r.l) == 0 {
		return nil, io.EOF
	}
	b := r.l[0]
	r.l = r.l[1:]
	return append([]byte(nil), b...), nil
}
func (r *walr) Close() error          { return nil }
func (r *walr) CloseAndRepair() error { return nil }

type walw struct {
	n  *Node
	id string
}

func (w walw) WriteBytes(b []byte) (int, error) {
	b = append([]byte(nil), b...)
	w.n.effect("write "+w.id, func() {
		w.n.disk.wal[w.id] = append(w.n.disk.wal[w.id], b)
		if w.n.OnWrite != nil {
			w.n.OnWrite(b)
		}
	})
	return len(b), nil
}

func (w walw) Sync() error {
	w.n.effect("sync "+w.id, func() { w.n.disk.synced[w.id] = len(w.n.disk.wal[w.id]) })
	return nil
}
func (w walw) Close() error { return nil }

// ---- network -------------------------------------------------------------------------------------------

// Msg is one which the node sent.
type Msg struct {
	P  module.ProtocolInfo
	B  []byte
	To module.PeerID
	R  string // the reactor
}

type netm struct {
	module.NetworkManager
	n *Node
}

func (m netm) RegisterReactor(name string, pi module.ProtocolInfo, r module.Reactor, l []module.ProtocolInfo, p uint8, _ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	m.n.reactors[name] = r
	return ph{m.n, name}, nil
}
func (m netm) RegisterReactorForStreams(name string, pi module.ProtocolInfo, r module.Reactor, l []module.ProtocolInfo, p uint8, _ module.NotRegisteredProtocolPolicy) (module.ProtocolHandler, error) {
	m.n.reactors[name] = r
	return ph{m.n, name}, nil
}
func (m netm) UnregisterReactor(module.Reactor) error       { return nil }
func (m netm) SetRole(int64, module.Role, ...module.PeerID) {}
func (m netm) GetPeers() []module.PeerID                    { return m.n.peers }

type ph struct {
	n *Node
	r string
}

func (p ph) send(pi module.ProtocolInfo, b []byte, to module.PeerID) error {
	b = append([]byte(nil), b...)
	p.n.effect("send", func() { p.n.sent(Msg{pi, b, to, p.r}) })
	return nil
}
func (p ph) Broadcast(pi module.ProtocolInfo, b []byte, _ module.BroadcastType) error {
	return p.send(pi, b, nil)
}
func (p ph) Multicast(pi module.ProtocolInfo, b []byte, _ module.Role) error {
	return p.send(pi, b, nil)
}
func (p ph) Unicast(pi module.ProtocolInfo, b []byte, id module.PeerID) error {
	return p.send(pi, b, id)
}
func (p ph) GetPeers() []module.PeerID { return p.n.peers }

// ---- block manager, service manager, chain -------------------------------------------------------------

type canceler struct{ p *pending }

func (c canceler) Cancel() bool {
	if c.p.done || c.p.flying {
		return false
	}
	c.p.cancelled = true
	return true
}

type pending struct {
	propose   bool
	b         *Blk
	cb        func(module.BlockCandidate, error)
	done      bool
	cancelled bool
	flying    bool // it is finished, but the engine was not told
}

type bm struct {
	module.BlockManager
	n *Node
}

func (m bm) GetBlockByHeight(h int64) (module.Block, error) {
	if h < 0 || h >= int64(len(m.n.disk.blocks)) {
		return nil, errors.New("no such block")
	}
	return m.n.disk.blocks[h], nil
}
func (m bm) GetLastBlock() (module.Block, error)                         { return m.n.disk.blocks[len(m.n.disk.blocks)-1], nil }
func (m bm) GetGenesisData() (module.Block, module.CommitVoteSet, error) { return nil, nil, nil }
func (m bm) WaitForTransaction([]byte, func()) (bool, error)             { return false, nil }
func (m bm) NewBlockDataFromReader(r io.Reader) (module.BlockData, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 || b[0] != 'B' {
		return nil, errors.New("not a block")
	}
	for _, x := range m.n.W.blocks {
		if bytes.Equal(x.raw, b) {
			return x, nil
		}
	}
	return nil, errors.New("unknown block")
}

func (m bm) Propose(parent []byte, votes module.CommitVoteSet, cb func(module.BlockCandidate, error)) (module.Canceler, error) {
	n := m.n
	last := n.disk.blocks[len(n.disk.blocks)-1]
	if !bytes.Equal(parent, last.id) {
		return nil, errors.New("bad parent")
	}
	n.proposals++
	p := &pending{propose: true, b: n.W.Block(last.H+1, n.Me, fmt.Sprintf("M%d.%d", n.Me, n.proposals), last.id), cb: cb}
	n.pend = append(n.pend, p)
	return canceler{p}, nil
}

func (m bm) ImportBlock(bd module.BlockData, flags int, cb func(module.BlockCandidate, error)) (module.Canceler, error) {
	b := bd.(*Blk)
	n := m.n
	last := n.disk.blocks[len(n.disk.blocks)-1]
	if b.H != last.H+1 || !bytes.Equal(b.Prev, last.id) {
		return nil, errors.New("bad parent")
	}
	p := &pending{b: b, cb: cb}
	n.pend = append(n.pend, p)
	return canceler{p}, nil
}

func (m bm) Finalize(c module.BlockCandidate) error {
	b := c.(*Blk)
	n := m.n
	last := n.disk.blocks[len(n.disk.blocks)-1]
	if b.H != last.H+1 || !bytes.Equal(b.Prev, last.id) {
		n.bad("block %s of height %d is finalized on height %d", b.Name, b.H, last.H)
	}
	n.effect("finalize", func() {
		n.disk.blocks = append(n.disk.blocks, b)
		if n.OnFinal != nil {
			n.OnFinal(b)
		}
	})
	if len(n.disk.blocks) == 0 || n.disk.blocks[len(n.disk.blocks)-1] != b {
		// the crash comes before; what follows counts no more
		return errStop
	}
	return nil
}

var errStop = errors.New("crashed")

type sm struct {
	module.ServiceManager
	n *Node
}

func (s sm) GetMembers([]byte) (module.MemberList, error) { return nil, nil }
func (s sm) GetMinimizeBlockGen([]byte) bool              { return false }
func (s sm) GetRoundLimit([]byte, int) int64              { return s.n.RoundLimit }
func (s sm) GetRevision([]byte) module.Revision           { return module.AllRevision }
func (s sm) SendPatch(p module.Patch) error               { s.n.patches++; return nil }
func (s sm) SendDoubleSignReport(result []byte, vh []byte, d []module.DoubleSignData) error {
	s.n.reports++
	return nil
}

type chn struct {
	base.Chain
	n *Node
}

func (c chn) Database() db.Database                 { return c.n.W.db }
func (c chn) Wallet() module.Wallet                 { return node.Wallet(c.n.Me) }
func (c chn) NID() int                              { return nid }
func (c chn) CID() int                              { return nid }
func (c chn) NetID() int                            { return nid }
func (c chn) NetworkManager() module.NetworkManager { return netm{n: c.n} }
func (c chn) BlockManager() module.BlockManager     { return bm{n: c.n} }
func (c chn) ServiceManager() module.ServiceManager { return sm{n: c.n} }
func (c chn) Regulator() module.Regulator           { return reg{} }
func (c chn) MetricContext() context.Context        { return context.Background() }
func (c chn) Logger() log.Logger                    { return c.n.W.lg }
func (c chn) WalletFor(string) module.BaseWallet    { return nil }
func (c chn) CommitVoteSetDecoder() module.CommitVoteSetDecoder {
	return consensus.NewCommitVoteSetFromBytes
}

type reg struct{}

func (reg) OnPropose(time.Time)                             {}
func (reg) CommitTimeout() time.Duration                    { return 0 }
func (reg) MinCommitTimeout() time.Duration                 { return time.Millisecond }
func (reg) OnTxExecution(int, time.Duration, time.Duration) {}
func (reg) SetBlockInterval(time.Duration, time.Duration)   {}
func (reg) MaxTxCount() int                                 { return 1 }

// ---- node ----------------------------------------------------------------------------------------------

type engine interface {
	module.Consensus
	OnReceive(sp module.ProtocolInfo, bs []byte, id module.PeerID) (bool, error)
}

// Node is one engine with what it keeps.
type Node struct {
	W          *World
	Me         int
	RoundLimit int64
	Clock      *mctime.Clock
	cs         engine
	disk       *Disk
	reactors   map[string]module.Reactor
	peers      []module.PeerID
	pend       []*pending
	limit      int // effects which happen before the node is gone (-1: all)
	effects    int
	log        []string
	Bad        []string
	OnSend     func(Msg)
	OnWrite    func([]byte)
	OnFinal    func(*Blk)
	patches    int
	reports    int
	starts     int
	proposals  int
	mu         sync.Mutex
}

// NewNode starts the engine of validator me.
func (w *World) NewNode(me int) *Node {
	n := &Node{W: w, Me: me, limit: -1, disk: &Disk{map[string][][]byte{}, map[string]int{}, []*Blk{w.Gen}}}
	return n
}

func (n *Node) bad(f string, a ...any) { n.Bad = append(n.Bad, fmt.Sprintf(f, a...)) }

func (n *Node) effect(what string, f func()) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.limit >= 0 && n.effects >= n.limit {
		return
	}
	n.effects++
	f()
}

func (n *Node) sent(m Msg) {
	if n.OnSend != nil {
		n.OnSend(m)
	}
}

// Start runs the engine with what is on the disk.
func (n *Node) Start() {
	n.reactors = map[string]module.Reactor{}
	n.pend = nil
	n.Clock = &mctime.Clock{Owner: n.Me}
	mctime.Use(n.Clock)
	n.starts++
	n.cs = consensus.New(chn{n: n}, "/nonexistent", walm{n}, nil, nil, nil, 0)
	n.guard("start", func() {
		if err := n.cs.Start(); err != nil {
			n.bad("the engine does not start: %v", err)
		}
	})
}

func (n *Node) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			if n.limit >= 0 && n.effects >= n.limit {
				return // after the crash
			}
			n.bad("panic (%s): %v", what, e)
		}
	}()
	f()
}

var panicked bool

// Stop ends the engine.
func (n *Node) Stop() {
	if n.cs == nil {
		return
	}
	mctime.Use(n.Clock)
	if !panicked {
		n.limit = 0
		n.effects = 0
		n.guard("stop", n.cs.Term)
	}
	panicked = false
	n.Clock.Drop()
	n.limit = -1
	n.cs = nil
}

// Crash takes the node down and up again; what was not synced is lost or not.
func (n *Node) Crash(lost bool) {
	n.Stop()
	if lost {
		for k, v := range n.disk.wal {
			n.disk.wal[k] = v[:n.disk.synced[k]:n.disk.synced[k]]
		}
	}
	for k, v := range n.disk.wal {
		n.disk.synced[k] = len(v)
	}
	n.limit, n.effects = -1, 0
	n.Start()
}

// Status tells where the engine is.
func (n *Node) Status() *module.ConsensusStatus { return n.cs.GetStatus() }

// Height is the height which is decided next.
func (n *Node) Height() int64 { return int64(len(n.disk.blocks)) }

// Last is the last block of the node.
func (n *Node) Last() *Blk { return n.disk.blocks[len(n.disk.blocks)-1] }

// Recv gives a message to the node.
func (n *Node) Recv(p module.ProtocolInfo, b []byte, from module.PeerID) (err error) {
	mctime.Use(n.Clock)
	n.guard("message", func() { _, err = n.cs.OnReceive(p, b, from) })
	return
}

// Sync gives a message to the part of the engine which helps others.
func (n *Node) Sync(p module.ProtocolInfo, b []byte, from module.PeerID) (err error) {
	mctime.Use(n.Clock)
	n.guard("sync message", func() { _, err = n.reactors["consensus.sync"].OnReceive(p, b, from) })
	return
}

// Tick runs the timers which are set.
func (n *Node) Tick() {
	mctime.Use(n.Clock)
	n.guard("timer", func() { n.Clock.Fire(n.Me) })
}

// Pending tells what the block manager is doing.
func (n *Node) Pending() bool {
	for _, p := range n.pend {
		if !p.done {
			return true
		}
	}
	return false
}

// Fly lets the block manager finish the oldest thing: it is too late to cancel it, but the engine does not know.
func (n *Node) Fly() {
	for _, p := range n.pend {
		if !p.done && !p.cancelled && !p.flying {
			p.flying = true
			return
		}
	}
}

// CanFly tells whether there is something to finish.
func (n *Node) CanFly() bool {
	for _, p := range n.pend {
		if !p.done && !p.cancelled && !p.flying {
			return true
		}
	}
	return false
}

// Work lets the block manager finish the oldest thing it is asked for.
func (n *Node) Work() (b *Blk, ok bool) {
	mctime.Use(n.Clock)
	for i, p := range n.pend {
		if p.done {
			continue
		}
		p.done = true
		n.pend = append(n.pend[:i:i], n.pend[i+1:]...)
		if p.cancelled {
			return n.Work()
		}
		ok = p.b.Valid()
		n.guard("block manager", func() {
			if ok {
				p.cb(p.b, nil)
			} else {
				p.cb(nil, errors.New("the block is not valid"))
			}
		})
		return p.b, ok
	}
	return nil, false
}

func short(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:4])
}

var _ = common.NewAddress
var _ = short

type peerID struct{ b []byte }

func (p peerID) Bytes() []byte              { return p.b }
func (p peerID) String() string             { return hex.EncodeToString(p.b) }
func (p peerID) Equal(o module.PeerID) bool { return bytes.Equal(p.b, o.Bytes()) }

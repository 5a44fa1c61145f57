package mc

import (
	"bufio"
	"fmt"
	"math/big"
	"net"
	"sync"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/codec"
	"github.com/icon-project/goloop/common/errors"
	"github.com/icon-project/goloop/common/ipc"
	"github.com/icon-project/goloop/module"
	"github.com/icon-project/goloop/service/eeproxy"
	"github.com/icon-project/goloop/service/scoreapi"
)

// EE is an execution engine for Java contracts whose contracts are Go functions: it speaks the protocol of the proxy.
type EE struct {
	N    int
	Code func(x *Exec) (any, error) // runs a call of a contract
	API  func(code string) *scoreapi.Info
	addr string
	once sync.Once
	lock sync.Mutex
	n    int
	live map[string]net.Conn
}

func (e *EE) Type() string { return "java" }
func (e *EE) Init(net, addr string) error {
	e.addr = addr
	return nil
}
func (e *EE) SetInstances(n int) error {
	e.once.Do(func() {
		for i := 0; i < n; i++ {
			Must(e.start())
		}
	})
	return nil
}

// start starts an instance; as the real engines do, it is started again when it dies.
func (e *EE) start() error {
	c, err := net.Dial("unix", e.addr)
	if err != nil {
		return err
	}
	e.lock.Lock()
	e.n++
	uid := fmt.Sprintf("engine-%06d", e.n)
	if e.live == nil {
		e.live = map[string]net.Conn{}
	}
	e.live[uid] = c
	e.lock.Unlock()
	x := &inst{ee: e, c: c, r: bufio.NewReader(c)}
	go x.loop(uid)
	return nil
}

func (e *EE) OnAttach(uid string) bool { return true }
func (e *EE) OnEnd(uid string) bool    { return false }
func (e *EE) Kill(uid string) (bool, error) {
	e.lock.Lock()
	defer e.lock.Unlock()
	if c, ok := e.live[uid]; ok {
		c.Close()
	}
	return true, nil
}
func (e *EE) OnConnect(conn ipc.Connection, v uint16) error { return fmt.Errorf("not here") }
func (e *EE) OnClose(conn ipc.Connection) bool              { return false }

var _ eeproxy.Engine = (*EE)(nil)

type inst struct {
	ee *EE
	c  net.Conn
	r  *bufio.Reader
}

type rawMP []byte

func (m *rawMP) UnmarshalRLP(bs []byte) error {
	*m = append([]byte(nil), bs...)
	return nil
}

type msgOut struct {
	Msg  uint
	Data any
}
type msgIn struct {
	Msg  uint
	Data rawMP
}
type msgVersion struct {
	Version   uint16
	UID, Type string
}
type msgInvoke struct {
	Code   string
	Flag   int
	From   *common.Address
	To     common.Address
	Value  common.HexInt
	Limit  common.HexInt
	Method string
	Params *codec.TypedObj
	Info   *codec.TypedObj
	CID    []byte
	EID    int
	State  *codeState
}
type codeState struct {
	NexHash   int
	GraphHash []byte
	PrevEID   int
}
type msgResult struct {
	Status   errors.Code
	StepUsed common.HexInt
	Result   *codec.TypedObj
	EID      int
	PrevEID  int
}
type msgAPI struct {
	Status errors.Code
	Info   *scoreapi.Info
}
type msgCall struct {
	To       common.Address
	Value    common.HexInt
	Limit    common.HexInt
	DataType string
	Data     *codec.TypedObj
}
type msgSet struct {
	Key   []byte
	Flag  uint16
	Value []byte
}
type msgOld struct {
	HasOld  bool
	OldSize int
}
type msgGet struct {
	Success bool
	Value   []byte
}
type msgEvent struct {
	Indexed [][]byte
	Data    [][]byte
}

type hungUp struct{}

func (i *inst) send(msg uint, data any) {
	if err := codec.MP.Marshal(i.c, msgOut{msg, data}); err != nil {
		panic(hungUp{})
	}
}
func (i *inst) recv() (uint, []byte) {
	var m msgIn
	if err := codec.MP.Unmarshal(i.r, &m); err != nil {
		panic(hungUp{})
	}
	return m.Msg, m.Data
}
func (i *inst) expect(msg uint, v any) {
	m, d := i.recv()
	if m != msg {
		panic(fmt.Sprintf("harness: message %d while waiting for %d", m, msg))
	}
	_, err := codec.MP.UnmarshalFromBytes(d, v)
	Must(err)
}

func (i *inst) loop(uid string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(hungUp); !ok {
				panic(r)
			}
		}
		i.c.Close()
		i.ee.lock.Lock()
		delete(i.ee.live, uid)
		i.ee.lock.Unlock()
		_ = i.ee.start() // fails when the chain is closed
	}()
	i.send(0, msgVersion{1, uid, "java"})
	for {
		m, d := i.recv()
		switch m {
		case 11:
			return
		default:
			i.handle(m, d)
		}
	}
}

func (i *inst) handle(m uint, d []byte) {
	switch m {
	case 1:
		var v msgInvoke
		_, err := codec.MP.UnmarshalFromBytes(d, &v)
		Must(err)
		x := &Exec{i: i, Code: v.Code, ReadOnly: v.Flag&1 != 0, To: &v.To, Value: &v.Value.Int, Limit: &v.Limit.Int, Method: v.Method,
			Used: new(big.Int), EID: v.EID}
		if v.From != nil {
			x.From = v.From
		}
		if v.Info != nil {
			in, err := common.DecodeAny(v.Info)
			Must(err)
			x.Info, _ = in.(map[string]any)
		}
		if v.Params != nil {
			p, err := common.DecodeAny(v.Params)
			Must(err)
			x.Params, _ = p.([]any)
		}
		res, err := i.ee.Code(x)
		r := msgResult{EID: v.EID}
		r.StepUsed.Set(x.Used)
		if err != nil {
			r.Status = errors.CodeOf(err)
			r.Result = common.MustEncodeAny(err.Error())
		} else {
			r.Result = common.MustEncodeAny(res)
		}
		i.send(2, &r)
	case 9:
		var code string
		_, err := codec.MP.UnmarshalFromBytes(d, &code)
		Must(err)
		i.send(9, &msgAPI{0, i.ee.API(code)})
	default:
		panic(fmt.Sprintf("harness: message %d", m))
	}
}

// Exec is a running call of a contract.
type Exec struct {
	i        *inst
	Code     string
	ReadOnly bool
	From, To module.Address
	Value    *big.Int
	Limit    *big.Int
	Method   string
	Params   []any
	Info     map[string]any
	Used     *big.Int
	EID      int
}

// Call calls another contract or transfers coins with at most the given steps.
func (x *Exec) Call(to module.Address, value, limit *big.Int, method string, params []any) (any, error) {
	m := msgCall{DataType: "call"}
	m.To.Set(to)
	if value != nil {
		m.Value.Set(value)
	}
	m.Limit.Set(limit)
	if params == nil {
		params = []any{}
	}
	m.Data = common.MustEncodeAny(map[string]any{"method": method, "params": params})
	x.i.send(5, &m)
	for {
		t, d := x.i.recv()
		if t != 2 {
			x.i.handle(t, d)
			continue
		}
		var r msgResult
		_, err := codec.MP.UnmarshalFromBytes(d, &r)
		Must(err)
		x.Used.Add(x.Used, &r.StepUsed.Int)
		if r.Status != 0 {
			return nil, r.Status.New(common.DecodeAsString(r.Result, ""))
		}
		v, err := common.DecodeAny(r.Result)
		Must(err)
		return v, nil
	}
}

// Die breaks the connection in the middle of the call.
func (x *Exec) Die() { panic(hungUp{}) }

func (x *Exec) Get(key string) []byte {
	x.i.send(3, []byte(key))
	var r msgGet
	x.i.expect(3, &r)
	if !r.Success {
		return nil
	}
	return r.Value
}

func (x *Exec) Set(key, value string) {
	m := msgSet{Key: []byte(key), Value: []byte(value)}
	if value == "" {
		m.Flag = 1
	}
	x.i.send(4, &m)
}

func (x *Exec) Event(indexed, data [][]byte) { x.i.send(6, &msgEvent{indexed, data}) }

func (x *Exec) Balance(a module.Address) *big.Int {
	x.i.send(8, common.AddressToPtr(a))
	var r common.HexInt
	x.i.expect(8, &r)
	return &r.Int
}

//go:build go1.22

// The plan: everything a run does.  run(plan) is a pure function of the plan
// and of the code under test.

package main

import "net"

// Plan is one simulated execution.
type Plan struct {
	Profile    string      `json:"profile"`
	Seed       uint64      `json:"seed"`
	Sched      SchedPlan   `json:"sched"`
	NetSeed    uint64      `json:"netSeed"`
	LogLevel   string      `json:"logLevel"`
	Cfg        J8Cfg       `json:"cfg"`
	Hosts      []*HostPlan `json:"hosts"`
	Conns      []*ConnPlan `json:"conns"`
	Reqs       []*ReqPlan  `json:"reqs"`
	Faults     []*Fault    `json:"faults"`
	ListenFail bool        `json:"listenFail,omitempty"`
	Linger     int64       `json:"linger"`        // ns to keep the world running after the last client is done
	Env        [][2]string `json:"env,omitempty"` // further environment variables
	BootOnly   bool        `json:"bootOnly,omitempty"`
	Early      bool        `json:"early,omitempty"`    // clients come as soon as the proxy listens
	NoFaults   bool        `json:"noFaults,omitempty"` // fault-free configuration: strict oracle
	Expect     string      `json:"expect,omitempty"`   // boot profile: "exit" or "serve"
	Note       string      `json:"note,omitempty"`
}

// SchedPlan drives the patched runtime's scheduler.
type SchedPlan struct {
	Seed     uint64    `json:"seed"`
	Rand     uint64    `json:"rand"`
	Yield    uint64    `json:"yield"`
	Mode     uint32    `json:"mode"`
	YieldP   uint32    `json:"yieldP"`
	StallP   uint32    `json:"stallP"`
	StallMin int64     `json:"stallMin"`
	StallMax int64     `json:"stallMax"`
	Budget   int64     `json:"budget"`
	HotP     uint32    `json:"hotP"`
	HotMax   int64     `json:"hotMax"`
	Hot      [4]uint32 `json:"hot"`
}

// J8Cfg is the configuration given to the proxy and the model's view of it.
type J8Cfg struct {
	Source      string               `json:"source"` // env | file
	UpPool      int                  `json:"upPool"`
	UpIdle      int                  `json:"upIdle"`
	UpSocket    int                  `json:"upSocket"`
	UpRead      int                  `json:"upRead"`
	MaxAttempts int                  `json:"maxAttempts"`
	Insecure    bool                 `json:"insecure,omitempty"`
	Decoy       string               `json:"decoy,omitempty"`   // other configurations where they must not be used: env default both
	Missing     bool                 `json:"missing,omitempty"` // the configuration file does not exist
	DnRead      int                  `json:"dnRead"`
	DnRound     int                  `json:"dnRound"`
	DnIdle      int                  `json:"dnIdle"`
	MaxBody     int64                `json:"maxBody"`
	TLS         bool                 `json:"tls,omitempty"`
	CertDays    int                  `json:"certDays,omitempty"` // downstream leaf valid for this many days from start
	CertAge     int                  `json:"certAge,omitempty"`  // issued this many days before start
	Chain       bool                 `json:"chain,omitempty"`    // include intermediate+root
	InterDays   int                  `json:"interDays,omitempty"`
	Mode        string               `json:"mode,omitempty"`   // how the mode is written, if not in capitals
	BadTLS      string               `json:"badTLS,omitempty"` // makes the downstream certificate or key unusable
	Routes      []*RouteCfg          `json:"routes"`
	Policies    map[string][]LW      `json:"policies,omitempty"`
	Resources   map[string][]*ResMap `json:"resources"`
	Jwts        map[string]*JwtCfg   `json:"jwts,omitempty"`
	Raw         string               `json:"raw,omitempty"` // literal config text overriding the generated one
	Extra       map[string]any       `json:"extra,omitempty"`
	Port        int                  `json:"port,omitempty"`
	Defaults    []string             `json:"defaults,omitempty"` // parameters left out of the configuration
}
type RouteCfg struct {
	Path      string `json:"path"`
	Transform string `json:"transform,omitempty"`
	Resource  string `json:"resource"`
	Policy    string `json:"policy,omitempty"`
	Jwt       string `json:"jwt,omitempty"`
}
type LW struct {
	Label  string  `json:"label"`
	Weight float64 `json:"weight"`
}
type ResMap struct {
	Labels []string `json:"labels,omitempty"`
	Scheme string   `json:"scheme"`
	Host   string   `json:"host"`
	Port   int      `json:"port"`
}
type JwtCfg struct {
	Alg  string `json:"alg"`
	Key  string `json:"key,omitempty"` // fixture name, or secret text for HS
	URL  string `json:"url,omitempty"`
	Skew string `json:"skew,omitempty"`
	Cert bool   `json:"cert,omitempty"` // the key is given as a certificate
}

// HostPlan is a simulated server reachable from the proxy.
type HostPlan struct {
	Host      string         `json:"host"`
	Port      int            `json:"port"`
	Kind      string         `json:"kind"` // app | jwks
	TLS       string         `json:"tls,omitempty"`
	TLSUntil  int64          `json:"tlsUntil,omitempty"` // cert NotAfter, seconds after start
	TLSMax    int            `json:"tlsMax,omitempty"`   // of TLS: the one version it speaks, 3 (1.2) or 4 (1.3)
	TLSKind   string         `json:"tlsKind,omitempty"`  // of TLS: "" or rsa, the kind of key it has
	Lat       int64          `json:"lat"`
	Jitter    int64          `json:"jitter"`
	Loss      float64        `json:"loss,omitempty"`
	Tiny      bool           `json:"tiny,omitempty"`
	Window    int            `json:"window"`
	Outages   []Window       `json:"outages,omitempty"`
	Down      []Window       `json:"down,omitempty"`
	Dial      map[int]string `json:"dial,omitempty"`
	Accept    map[int]string `json:"accept,omitempty"` // server connection index -> reset | stall | close
	IdleClose int64          `json:"idleClose,omitempty"`
	Jwks      []*JwksState   `json:"jwks,omitempty"`
}

// JwksState is what the key server serves from At on.
type JwksState struct {
	At    int64      `json:"at"`
	Mode  string     `json:"mode"` // ok 500 garbage empty odd hang hang_body partial reset slow
	Delay int64      `json:"delay,omitempty"`
	Doc   int        `json:"doc,omitempty"` // of mode odd: which of oddJwks
	Keys  []*JwkSpec `json:"keys,omitempty"`
}
type JwkSpec struct {
	Key string `json:"key"`
	Kid string `json:"kid"`
	Alg string `json:"alg"`
	Bad string `json:"bad,omitempty"` // missing_n badkty crv noalg
}

// ConnPlan is one client connection.
type ConnPlan struct {
	ID      int      `json:"id"`
	Start   int64    `json:"start"`
	Proto   string   `json:"proto"` // http | tls | h2
	TLSMax  int      `json:"tlsMax,omitempty"`
	Lat     int64    `json:"lat"`
	Jitter  int64    `json:"jitter"`
	Loss    float64  `json:"loss,omitempty"`
	Tiny    bool     `json:"tiny,omitempty"`
	Window  int      `json:"window"`
	Outages []Window `json:"outages,omitempty"`
	IdleEnd int64    `json:"idleEnd,omitempty"` // keep open this long after the last response
	Silent  bool     `json:"silent,omitempty"`  // connect and say nothing
}

// ReqPlan is one client request.
type ReqPlan struct {
	ID        int         `json:"id"`
	Conn      int         `json:"conn"`
	Think     int64       `json:"think"`
	Method    string      `json:"method"`
	URI       string      `json:"uri"`
	Hdr       [][2]string `json:"hdr,omitempty"`
	Body      int         `json:"body,omitempty"`
	Framing   string      `json:"framing,omitempty"`  // "" | cl | chunked
	Declared  int         `json:"declared,omitempty"` // declared content-length if different
	Pieces    int         `json:"pieces,omitempty"`
	Gap       int64       `json:"gap,omitempty"`
	Abort     string      `json:"abort,omitempty"` // hdr|body|sent + -fin|-rst|-stall
	AbortAt   int         `json:"abortAt,omitempty"`
	ReadDelay int64       `json:"readDelay,omitempty"`
	ReadGap   int64       `json:"readGap,omitempty"` // pause between reads of 512 bytes
	Expect100 bool        `json:"expect100,omitempty"`
	Http10    bool        `json:"http10,omitempty"`
	Abs       bool        `json:"abs,omitempty"` // request target in absolute form
	Tok       *TokSpec    `json:"tok,omitempty"`
	Behavs    []*Behav    `json:"behavs,omitempty"`
	Probe     bool        `json:"probe,omitempty"` // sent after all faults have stopped: must succeed
}

// TokSpec describes a bearer token minted when the request is sent.
type TokSpec struct {
	Alg    string `json:"alg"`
	Key    string `json:"key"`
	Kid    string `json:"kid,omitempty"`
	Exp    *int64 `json:"exp,omitempty"` // seconds relative to the wall clock at sending
	Nbf    *int64 `json:"nbf,omitempty"`
	Iat    *int64 `json:"iat,omitempty"`
	Mangle string `json:"mangle,omitempty"`
	Raw    int    `json:"raw,omitempty"`   // an unusual claims document (rawClaims, from 1), signed as it should be
	Reuse  int    `json:"reuse,omitempty"` // present the token of this earlier request (its id + 1) once more
}

// Behav scripts what an upstream does with the k-th arrival of a request.
type Behav struct {
	Delay   int64       `json:"delay,omitempty"`
	Status  int         `json:"status"`
	Hdr     [][2]string `json:"hdr,omitempty"`
	Size    int         `json:"size,omitempty"`
	Kind    string      `json:"kind,omitempty"` // text json bin gz (a gzip file) magic (starts like one)
	Enc     string      `json:"enc,omitempty"`  // "" gzip GZIP identity, damaged: gzip_trunc gzip_corrupt gzip_not gzip_stub; others are opaque to the proxy
	Zip     string      `json:"zip,omitempty"`  // how it is gzipped: "" multi named stored empties
	Framing string      `json:"framing,omitempty"`
	Pieces  int         `json:"pieces,omitempty"`
	Gap     int64       `json:"gap,omitempty"`
	Fail    string      `json:"fail,omitempty"`  // "" rst fin stall garbage
	Stage   string      `json:"stage,omitempty"` // line head req hdr body
	At      int         `json:"at,omitempty"`
	Close   bool        `json:"close,omitempty"`
	Early   bool        `json:"early,omitempty"`
	Interim int         `json:"interim,omitempty"`
	Declare int         `json:"declare,omitempty"` // content-length declared in answer to HEAD
}

// Fault is a timed environment fault.
type Fault struct {
	Kind string `json:"kind"`
	At   int64  `json:"at"`
	Dur  int64  `json:"dur,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
	Path string `json:"path,omitempty"`
}

// ---- recorded history

type Arrival struct {
	Rid     int
	K       int
	Host    string
	Conn    int
	ConnReq int
	T       int64 // request line read
	TDone   int64 // request completely read
	Method  string
	URI     string
	Hdr     [][2]string
	Body    []byte
	Full    bool
	Bad     string
	B       *Behav
	Outcome string // ok fail
	FailT   int64  // earliest time the proxy can know of the failure
	T1      int64  // last response byte reaches the proxy
	Sent    int
	Status  int
	Gone    int64 // when the server saw the proxy leave while it was being served (-1 no)
	Reused  bool
	TSent   int64 // the proxy began to send it
	PG      int64 // the proxy closed the connection it was on (-1 no), known at the end
	c       *Conn
}

type UpConn struct {
	Host    string
	ID      int
	Opened  int64
	Closed  int64 // -1 open
	By      string
	Reqs    int
	IdleAt  int64
	next    int64 // stream position at which the next request begins
	TLSFail string
	nc      net.Conn
	HsDone  int64 // TLS handshake completed (-1 no, 0 plain)
	c       *Conn
	busy    bool
	damaged bool // it carried a damaged body: the proxy may hold on to it for longer
}

type ReqRec struct {
	P       *ReqPlan
	C       *ConnPlan
	ConnSeq int // which physical connection of the client
	Idx     int // index on that physical connection
	Sent    bool
	T0      int64
	THdr    int64 // request head reaches the proxy
	TBody   int64 // request body reaches the proxy
	SentAll bool
	SendErr string
	WallT0  int64
	Token   string
	TokExp  int64
	TokNbf  int64
	TokIat  int64
	TFirst  int64
	TLast   int64
	Status  int
	Hdr     [][2]string
	Body    []byte
	Raw     int
	Err     string // "" complete; otherwise what was wrong
	Bytes   int    // response bytes seen
	Interim []int
	Close   bool
	PrevEnd int64 // when the previous response on this connection ended
	PrevCl  bool
	PeerFin int64
	Extra   string
	Aborted bool
	Host    string
	GoneAt  int64
	Conn    *clientConn
}

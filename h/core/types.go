// Package core holds the job language shared by the driver (which generates
// cases and judges what was observed) and the worker (which executes them
// against the real go-snaps), plus the observers and parsers of the oracles.
package core

// Val describes a value handed to go-snaps. Bytes travel base64 encoded so
// that every byte sequence survives the trip.
type Val struct {
	T string `json:"t"`           // s string | b []byte | js Go value decoded from JSON in B | see wk.value
	B []byte `json:"b,omitempty"` // payload
	N string `json:"n,omitempty"` // variant name for typed Go values
	R *Rep   `json:"r,omitempty"` // payload written as a repetition
}

// Rep is a large text: Pre, N times Body, Post; Mid lies in the midst of the
// repetition.
type Rep struct {
	Pre  []byte `json:"p,omitempty"`
	Body []byte `json:"b"`
	N    int    `json:"n"`
	Mid  []byte `json:"m,omitempty"`
	Post []byte `json:"q,omitempty"`
}

// Text is the payload.
func (v Val) Text() []byte {
	if v.R == nil {
		return v.B
	}
	b := make([]byte, 0, len(v.R.Pre)+len(v.R.Body)*v.R.N+len(v.R.Mid)+len(v.R.Post))
	b = append(b, v.R.Pre...)
	for i := 0; i < v.R.N; i++ {
		if i == v.R.N/2 {
			b = append(b, v.R.Mid...)
		}
		b = append(b, v.R.Body...)
	}
	return append(b, v.R.Post...)
}

func S(s string) Val  { return Val{T: "s", B: []byte(s)} }
func By(s string) Val { return Val{T: "b", B: []byte(s)} }
func JS(s string) Val { return Val{T: "js", B: []byte(s)} }

// Matcher spec.
type Matcher struct {
	K     string   `json:"k"` // any | type | custom
	Paths []string `json:"p"`
	Type  string   `json:"ty,omitempty"`
	Ph    *Val     `json:"ph,omitempty"`
	Miss  *bool    `json:"miss,omitempty"`
	CB    string   `json:"cb,omitempty"` // ret | err | id | rec
	Err   string   `json:"err,omitempty"`
}

type JSONOpt struct {
	Width    int
	Indent   string
	SortKeys bool
}

// Cfg is a list of options for snaps.WithConfig.
type Cfg struct {
	File   *string  `json:"file,omitempty"`
	Dir    *string  `json:"dir,omitempty"`
	Ext    *string  `json:"ext,omitempty"`
	Update *bool    `json:"upd,omitempty"`
	JSON   *JSONOpt `json:"json,omitempty"`
}

// Op is one action of a test.
//
//	snap ssnap json sjson yaml   Match* calls
//	skip skipf skipnow           snaps.Skip*
//	tskip                        t.Skip (not tracked by go-snaps)
//	sub                          run Node as a subtest (real runner only)
//	par                          t.Parallel (real runner only)
//	cleanup                      t.Cleanup(func(){ Ops })
//	env/chdir                    os.Chdir(B)
//	gopar                        run every op of Ops in its own goroutine
//	go                           run Ops from a goroutine of the test and wait
type Op struct {
	K     string    `json:"k"`
	C     int       `json:"c,omitempty"` // config index; -1 = package level function
	V     []Val     `json:"v,omitempty"`
	M     []Matcher `json:"m,omitempty"`
	Ops   []Op      `json:"ops,omitempty"`
	Node  *Node     `json:"node,omitempty"`
	Iters []int     `json:"it,omitempty"` // only in these executions (1-based) of the test
	Tag   string    `json:"tag,omitempty"`
	Depth int       `json:"d,omitempty"`   // helper frames between test and call
	Fmt   bool      `json:"fmt,omitempty"` // record the formatted value
	Lim   int       `json:"lim,omitempty"` // file size limit during the call
}

type Node struct {
	Name string `json:"name"`
	Ops  []Op   `json:"ops"`
}

// Exec is one execution of a test by name on a recording T.
type Exec struct {
	Test string `json:"test"`
	Ops  []Op   `json:"ops"`
}

// Case is an isolated history. Steps run one after the other; the execs of
// one step run concurrently.
type Case struct {
	ID      string   `json:"id"`
	Dir     string   `json:"dir"` // case directory, $CASE in config dirs
	Cfgs    []Cfg    `json:"cfgs"`
	Steps   [][]Exec `json:"steps"`
	Watch   bool     `json:"watch,omitempty"`   // observe the case dir around every call (sequential only)
	Watched []string `json:"watched,omitempty"` // directories to watch (default: Dir)

	// Clean after the steps (ends the usefulness of the process)
	Clean int `json:"clean,omitempty"` // number of times to call Clean
	// CleanAfter are steps after which Clean is called in between
	CleanAfter []int  `json:"cleanafter,omitempty"`
	Sort       bool   `json:"sort,omitempty"`
	SortArg    bool   `json:"sortarg,omitempty"` // pass CleanOpts even when Sort is false
	CleanTwo   bool   `json:"-"`
	Repeat     int    `json:"repeat,omitempty"` // repeat the concurrent step list
	Sched      *Sched `json:"sched,omitempty"`
	NoWait     bool   `json:"nowait,omitempty"`
	// Share: matchers of the same description are one object, used by all the
	// calls that have it, and equal lists of paths one slice
	Share bool `json:"share,omitempty"`
	// Links are symbolic links below Dir to directories below Dir, made first
	Links [][2]string `json:"links,omitempty"`
	Build string      `json:"build,omitempty"` // configs: "" once each, before the calls | fresh per call | lazy on first use | optshare: option values shared between configs, built in reverse order
}

// Sched drives the yield points of the instrumented build.
type Sched struct {
	Mode   string `json:"mode"` // "" off | rand | preempt
	Seed   uint64 `json:"seed"`
	Victim int    `json:"victim"` // exec index
	At     []int  `json:"at"`     // yield ordinals of the victim at which it is paused
	Rate   int    `json:"rate"`   // rand: 1 in Rate yields sleeps
}

type Job struct {
	Mode   string `json:"mode"` // bulk | pool
	Out    string `json:"out"`
	Cases  []Case `json:"cases"`
	Nodes  []Node `json:"nodes"` // pool: top level programs by test name
	Case   Case   `json:"case"`  // pool: configs, dir, clean options
	Serial bool   `json:"serial"`
}

// CallRes is what was observed at the client boundary for one op.
type CallRes struct {
	Case  string   `json:"case"`
	Step  int      `json:"s"`
	Exec  int      `json:"e"`
	Op    int      `json:"o"`
	Test  string   `json:"test"`
	Iter  int      `json:"iter,omitempty"`
	K     string   `json:"k"`
	Tag   string   `json:"tag,omitempty"`
	T0    int64    `json:"t0"` // logical clock
	T1    int64    `json:"t1"`
	Errs  [][]byte `json:"errs,omitempty"`
	Logs  [][]byte `json:"logs,omitempty"`
	Skips int      `json:"skips,omitempty"`
	Other []string `json:"other,omitempty"` // anything else done to the T
	Panic string   `json:"panic,omitempty"`
	Wrote []string `json:"wrote,omitempty"` // files changed by this call (Watch)
	Buf   string   `json:"buf,omitempty"`   // caller buffer damage
	CBs   []CBRec  `json:"cbs,omitempty"`
	Fmt   []byte   `json:"fmt,omitempty"`  // kr/pretty's text of the value
	Outs  []MOut   `json:"outs,omitempty"` // results of a matcher chain applied directly (mj, my)
}

// MOut is the result of applying a chain of matchers to one document.
type MOut struct {
	Out  []byte `json:"out"`
	Errs []MErr `json:"errs,omitempty"`
}

type MErr struct {
	M      int    `json:"m"` // position in the chain
	Name   string `json:"n"`
	Path   string `json:"p"`
	Reason string `json:"r"`
}

// CBRec is one invocation of a Custom callback.
type CBRec struct {
	M   int    `json:"m"`
	Typ string `json:"typ"`
	Val string `json:"val"`
}

// Line of the worker's output file.
type Line struct {
	Start      string            `json:"start,omitempty"`
	Call       *CallRes          `json:"call,omitempty"`
	End        string            `json:"end,omitempty"`
	Clean      []byte            `json:"clean,omitempty"`
	CleanN     int               `json:"cleann,omitempty"`
	CleanWrote []string          `json:"cleanwrote,omitempty"`
	PreTree    map[string][]byte `json:"pretree,omitempty"`
	PostTree   map[string][]byte `json:"posttree,omitempty"`
	Run        string            `json:"run,omitempty"` // pool: test started (name)
	Iter       int               `json:"iter,omitempty"`
	Skip       string            `json:"skip,omitempty"`
	Yields     []int             `json:"yields,omitempty"`
	Mask       int               `json:"mask,omitempty"`
	Stuck      int               `json:"stuck,omitempty"`
	Sig        uint64            `json:"sig,omitempty"`
	Done       bool              `json:"done,omitempty"`
}

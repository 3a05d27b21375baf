// Package updhist decides P23: every short history of update checks.
package updhist

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/adrg/xdg"
	"github.com/bab-sh/bab/cmd"
	"github.com/bab-sh/bab/internal/update"
	"github.com/bab-sh/bab/internal/zzverif/vlib"
	"github.com/charmbracelet/log"
)

// ---- the server ----

type server struct {
	ans    answer
	asked  []*http.Request
	opened int
	closed int
}

type answer struct {
	name   string
	status int
	tag    string // the tag a well-formed 200 answer carries
	etag   string
	body   string
	loc    string
	err    bool          // no answer at all
	delay  time.Duration // before the answer
	cut    bool          // the body breaks off
	stall  bool          // the body never ends
	cancel bool          // the command is cancelled meanwhile
}

func (a answer) good() bool {
	return a.status == 200 && a.tag != "" && a.delay < 5*time.Second && !a.cancel
}

type body struct {
	r     io.Reader
	s     *server
	ctx   context.Context
	cut   bool
	stall bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.stall {
		<-b.ctx.Done()
		return 0, b.ctx.Err()
	}
	if err == io.EOF && b.cut {
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *body) Close() error { b.s.closed++; return nil }

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.asked = append(s.asked, r)
	if len(s.asked) > 20 {
		return nil, errors.New("too many requests")
	}
	if s.ans.delay > 0 || s.ans.cancel {
		t := time.NewTimer(s.ans.delay)
		if s.ans.cancel {
			t.Stop()
		}
		defer t.Stop()
		select {
		case <-t.C:
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
	}
	if s.ans.err {
		return nil, errors.New("connection refused")
	}
	h := http.Header{}
	if s.ans.etag != "" {
		h.Set("ETag", s.ans.etag)
	}
	if s.ans.loc != "" {
		h.Set("Location", s.ans.loc)
	}
	s.opened++
	return &http.Response{StatusCode: s.ans.status, Status: strconv.Itoa(s.ans.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Request: r, ContentLength: -1, Body: &body{r: strings.NewReader(s.ans.body), s: s, ctx: r.Context(), cut: s.ans.cut, stall: s.ans.stall}}, nil
}

func release(tag string) string {
	return fmt.Sprintf(`{"url":"https://example.invalid","tag_name":%q,"name":"x","assets":[{"name":"a"}]}`, tag)
}

func answers(thorough bool) []answer {
	as := []answer{
		{name: "newer", status: 200, tag: "v1.3.0", etag: `"e1"`, body: release("v1.3.0")},
		{name: "newest", status: 200, tag: "v1.10.0", etag: `W/"e2"`, body: release("v1.10.0")},
		{name: "newer without etag", status: 200, tag: "v1.3.0", body: release("v1.3.0")},
		{name: "older", status: 200, tag: "v1.1.0", etag: `"e0"`, body: release("v1.1.0")},
		{name: "same", status: 200, tag: "v1.2.0", etag: `"e"`, body: release("v1.2.0")},
		{name: "no version", status: 200, tag: "nightly", etag: `"e3"`, body: release("nightly")},
		{name: "late", status: 200, tag: "v1.3.0", etag: `"e1"`, body: release("v1.3.0"), delay: 4 * time.Second},
		{name: "too late", status: 200, tag: "v1.3.0", etag: `"e1"`, body: release("v1.3.0"), delay: 30 * time.Second},
		{name: "cancelled", status: 200, tag: "v1.3.0", etag: `"e1"`, body: release("v1.3.0"), cancel: true},
		{name: "not modified", status: 304, etag: `"other"`},
		{name: "late not modified", status: 304, delay: 4 * time.Second},
		{name: "empty tag", status: 200, etag: `"x"`, body: release("")},
		{name: "no tag", status: 200, etag: `"x"`, body: `{"name":"v9.0.0"}`},
		{name: "tag is a number", status: 200, etag: `"x"`, body: `{"tag_name":9}`},
		{name: "list", status: 200, etag: `"x"`, body: `[` + release("v9.0.0") + `]`},
		{name: "html", status: 200, etag: `"x"`, body: `<html>v9.0.0</html>`},
		{name: "empty body", status: 200, etag: `"x"`},
		{name: "half", status: 200, etag: `"x"`, body: release("v9.0.0")[:60]},
		{name: "cut off", status: 200, etag: `"x"`, body: release("v9.0.0")[:60], cut: true},
		{name: "stalled", status: 200, etag: `"x"`, body: release("v9.0.0")[:60], stall: true},
		{name: "too big", status: 200, etag: `"x"`, body: `{"body":"` + strings.Repeat("x", 1<<21) + `","tag_name":"v9.0.0"}`},
		{name: "no connection", err: true},
		{name: "late refusal", err: true, delay: 2 * time.Second},
	}
	for _, st := range []int{201, 204, 403, 404, 429, 500, 503} {
		as = append(as, answer{name: fmt.Sprint(st), status: st, etag: `"x"`, body: release("v9.0.0")})
	}
	for _, st := range []int{301, 302, 303, 307, 308} {
		as = append(as, answer{name: fmt.Sprint(st), status: st, etag: `"x"`, loc: "https://elsewhere.invalid/latest", body: release("v9.0.0")})
	}
	return as
}

// ---- the model ----

type rec struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

// model is what the cache should hold; raw content that is no usable answer
// counts as nothing.
type model struct {
	has bool
	rec
}

func (m model) usable(now time.Time) bool {
	return m.has && m.LatestVersion != "" && !m.CheckedAt.After(now)
}

// version is an independent reading of a version number.
type version struct {
	num [3]int
	pre []string
	ok  bool
}

func parseVersion(s string) (v version) {
	s = strings.TrimPrefix(s, "v")
	s, _, _ = strings.Cut(s, "+")
	core, pre, has := strings.Cut(s, "-")
	parts := strings.Split(core, ".")
	if len(parts) > 3 {
		return v
	}
	for i, p := range parts {
		n, err := strconv.Atoi(p)
		if err != nil || n < 0 {
			return v
		}
		v.num[i] = n
	}
	if has {
		v.pre = strings.Split(pre, ".")
	}
	v.ok = true
	return v
}

func newer(latest, current string) bool {
	a, b := parseVersion(latest), parseVersion(current)
	if !a.ok || !b.ok {
		return false
	}
	for i := range a.num {
		if a.num[i] != b.num[i] {
			return a.num[i] > b.num[i]
		}
	}
	if len(a.pre) == 0 || len(b.pre) == 0 {
		return len(a.pre) == 0 && len(b.pre) > 0
	}
	for i := 0; i < len(a.pre) && i < len(b.pre); i++ {
		x, y := a.pre[i], b.pre[i]
		if x == y {
			continue
		}
		nx, ex := strconv.Atoi(x)
		ny, ey := strconv.Atoi(y)
		switch {
		case ex == nil && ey == nil:
			return nx > ny
		case ex == nil:
			return false
		case ey == nil:
			return true
		}
		return x > y
	}
	return len(a.pre) > len(b.pre)
}

type setting struct {
	name    string
	noCheck *string
	ci      *string
	current string
	skip    bool
}

func ptr(s string) *string { return &s }

func settings() []setting {
	return []setting{
		{name: "plain", current: "v1.2.0"},
		{name: "no v", current: "1.2.0"},
		{name: "set to nothing", noCheck: ptr(""), ci: ptr(""), current: "v1.2.0"},
		{name: "set to 0 and false", noCheck: ptr("0"), ci: ptr("false"), current: "v1.2.0"},
		{name: "old", current: "0.9.0"},
		{name: "ahead", current: "v2.0.0-rc.1"},
		{name: "odd", current: "custom"},
		{name: "BAB_NO_UPDATE_CHECK=1", noCheck: ptr("1"), current: "v1.2.0", skip: true},
		{name: "CI=true", ci: ptr("true"), current: "v1.2.0", skip: true},
		{name: "CI=1", ci: ptr("1"), current: "v1.2.0", skip: true},
		{name: "both", noCheck: ptr("1"), ci: ptr("true"), current: "v1.2.0", skip: true},
		{name: "CI and not", noCheck: ptr("0"), ci: ptr("true"), current: "v1.2.0", skip: true},
		{name: "dev", current: "dev", skip: true},
		{name: "no version", current: "", skip: true},
	}
}

func apply(s setting) {
	put := func(k string, v *string) {
		if v == nil {
			_ = os.Unsetenv(k)
		} else {
			_ = os.Setenv(k, *v)
		}
	}
	put("BAB_NO_UPDATE_CHECK", s.noCheck)
	put("CI", s.ci)
}

// ---- the exploration ----

type event struct {
	wait    time.Duration
	setting int
	answer  int
}

type node struct {
	now     time.Time
	raw     []byte // content of the file; nil: absent
	m       model
	history []string
}

var (
	ch      *vlib.Check
	dir     string
	file    string
	allSet  = settings()
	allAns  []answer
	started = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
)

func read() []byte {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	return b
}

func put(raw []byte) {
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	if raw != nil {
		_ = os.WriteFile(file, raw, 0o644)
	}
}

// expect is what the model says about one command.
type expect struct {
	ask   bool
	inm   string
	after model
}

func predict(m model, now time.Time, s setting, a answer) (e expect) {
	e.after = m
	if s.skip {
		return e
	}
	if m.usable(now) && now.Sub(m.CheckedAt) < 24*time.Hour {
		return e
	}
	e.ask = true
	if m.usable(now) {
		e.inm = m.ETag
	}
	at := now.Add(a.delay)
	switch {
	case a.good():
		e.after = model{true, rec{at, a.tag, a.etag}}
	case a.status == 304 && m.usable(now) && a.delay < 5*time.Second && !a.cancel:
		e.after = model{true, rec{at, m.LatestVersion, m.ETag}}
	}
	return e
}

// transition runs one command of the update machinery in the state given and
// compares it with the model.
func transition(n node, ev event) (out node, why string) {
	s, a := allSet[ev.setting], allAns[ev.answer]
	label := fmt.Sprintf("+%v %s <- %s", ev.wait, s.name, a.name)
	out.history = append(append([]string{}, n.history...), label)
	put(n.raw)
	apply(s)
	srv := &server{ans: a}
	http.DefaultTransport = srv
	synctest.Test(theT, func(*testing.T) {
		time.Sleep(n.now.Add(ev.wait).Sub(time.Now()))
		now := time.Now()
		want := predict(n.m, now, s, a)
		announce := func(m model, at time.Time) string {
			if !s.skip && m.usable(at) && newer(m.LatestVersion, s.current) {
				return s.current + " " + m.LatestVersion
			}
			return "none"
		}
		show := func(i *update.Info) string {
			if i == nil {
				return "none"
			}
			return i.CurrentVersion + " " + i.LatestVersion
		}
		bad := func(f string, args ...any) {
			if why == "" {
				why = fmt.Sprintf(f, args...)
			}
		}
		if got, w := show(update.CheckCached(s.current)), announce(n.m, now); got != w {
			bad("before the refresh bab announces %q, not %q", got, w)
		}
		ctx, cancel := context.WithCancel(context.Background())
		update.StartBackgroundRefresh(ctx, s.current)
		if d := time.Since(now); d != 0 {
			bad("the command waited %v for the server", d)
		}
		if a.cancel {
			synctest.Wait()
			cancel()
		}
		synctest.Wait()
		time.Sleep(time.Minute)
		synctest.Wait()
		if busy() {
			bad("the refresh is still running a minute later")
		}
		cancel()
		asks := 0
		if want.ask {
			asks = 1
		}
		if len(srv.asked) != asks {
			bad("%d requests, not %d", len(srv.asked), asks)
		}
		for _, r := range srv.asked {
			if got := strings.Join(r.Header["If-None-Match"], "|"); got != want.inm {
				bad("If-None-Match is %q, not %q", got, want.inm)
			}
			if r.Method != "GET" || r.URL.Scheme != "https" || r.URL.Host != "api.github.com" || !strings.HasPrefix(r.URL.Path, "/repos/bab-sh/bab/releases/latest") {
				bad("the request is %s %s", r.Method, r.URL)
			}
		}
		raw := read()
		if want.after == n.m {
			if !bytes.Equal(raw, n.raw) {
				bad("the cached answer was changed to %q", raw)
			}
		} else {
			var r rec
			if err := json.Unmarshal(raw, &r); err != nil || r.LatestVersion != want.after.LatestVersion || r.ETag != want.after.ETag || !r.CheckedAt.Equal(want.after.CheckedAt) {
				bad("the cache holds %q, not %+v", raw, want.after.rec)
			}
		}
		if ents, _ := os.ReadDir(dir); len(ents) > 1 || len(ents) == 1 && ents[0].Name() != filepath.Base(file) {
			bad("other files in the cache directory: %v", ents)
		}
		out.now, out.raw, out.m = time.Now(), raw, want.after
		if got, w := show(update.CheckCached(s.current)), announce(want.after, out.now); got != w {
			bad("after the refresh bab announces %q, not %q", got, w)
		}
		if srv.opened != srv.closed {
			bad("%d of %d answers were closed", srv.closed, srv.opened)
		}
	})
	return out, why
}

var theT *testing.T

// key identifies a state up to what can matter later.
func (n node) key() string {
	if !n.m.has {
		return fmt.Sprintf("nothing %q", n.raw)
	}
	age := n.now.Sub(n.m.CheckedAt)
	class := "fresh"
	switch {
	case age < 0:
		class = "future"
	case age >= 24*time.Hour:
		class = "old"
	case age > 12*time.Hour:
		class = "nearly a day"
	}
	return fmt.Sprintf("%s %s %s", n.m.LatestVersion, n.m.ETag, class)
}

func TestP23(t *testing.T) {
	theT = t
	ch = vlib.New("P23", "model_checking")
	dirBase, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "hist")
	if err != nil {
		t.Fatal(err)
	}
	_ = os.Setenv("XDG_CACHE_HOME", dirBase)
	_ = os.Setenv("HOME", dirBase)
	xdg.Reload()
	dir = filepath.Join(dirBase, "bab")
	file = filepath.Join(dir, "update-check.json")
	allAns = answers(ch.Thorough())
	ch.Rule("one case is one command in one reachable state of the cache (or one pair of versions, or one run of a whole command): the requests it sends, the cache it leaves and what it announces are compared with the model; the state space is explored breadth first with the real code as the transition function; cases in which bab has to ask or announce are non-trivial")
	ch.Assume("the server is a stand-in for net/http's default transport; the clock is that of a synctest bubble")
	versions()
	base := len(allAns)
	sizes()
	allAns = allAns[:base]
	explore()
	commands()
	rc := ch.Write()
	_ = os.RemoveAll(dirBase)
	os.Exit(rc)
}

func versions() {
	pool := []string{"v1.2.0", "1.2.0", "v1.2.1", "v1.10.0", "v1.9.9", "v2.0.0", "v0.9.0", "v1.2.0-rc.1", "v1.2.0-rc.2", "v1.2.0-rc.10", "v1.2.0-alpha", "v1.2.0-alpha.1", "v1.3.0-rc.1", "v1.2", "v1", "v1.2.0+build5", "v10.0.0", "nightly", "v", "latest-1.9"}
	_ = os.Unsetenv("CI")
	_ = os.Unsetenv("BAB_NO_UPDATE_CHECK")
	for _, l := range pool {
		b, _ := json.Marshal(rec{time.Now().Add(-time.Hour), l, ""})
		put(b)
		for _, c := range pool {
			got := update.CheckCached(c)
			ch.Eval("versions " + l + " " + c)
			ch.States(0, 1)
			if (got != nil) != newer(l, c) || got != nil && (got.CurrentVersion != c || got.LatestVersion != l) {
				ch.Violation("cached "+l+", running "+c, map[string]any{"announced": got, "newer": newer(l, c)})
			}
		}
	}
}

func explore() {
	at := func(age time.Duration, tag, etag string) node {
		m := model{true, rec{started.Add(-age), tag, etag}}
		b, _ := json.Marshal(m.rec)
		return node{now: started, raw: b, m: m, history: []string{fmt.Sprintf("cached %s %s %v ago", tag, etag, age)}}
	}
	const day = 24 * time.Hour
	frontier := []node{
		{now: started, history: []string{"no cache"}},
		{now: started, raw: []byte("{"), history: []string{"broken cache"}},
		{now: started, raw: []byte(`{"checked_at":"1999-12-31T23:00:00Z","latest_version":"","etag":"\"z\""}`), history: []string{"cache without a version"}},
		at(0, "v1.3.0", `"a"`), at(day-time.Nanosecond, "v1.3.0", `"a"`), at(day, "v1.3.0", `"a"`), at(10*day, "v1.3.0", ""),
		at(-time.Hour, "v1.3.0", `"a"`), at(-time.Nanosecond, "v1.1.0", `"a"`), at(10*day, "v1.1.0", `"b"`), at(2*day, "nightly", `"c"`),
	}
	// A time without a zone or in another zone, as other programs may write.
	zone := at(2*day, "v1.3.0", `"a"`)
	zone.raw = []byte(`{"latest_version":"v1.3.0","etag":"\"a\"","checked_at":"` + started.Add(-2*day).In(time.FixedZone("x", 7200)).Format(time.RFC3339Nano) + `"}`)
	frontier = append(frontier, zone)
	waits := []time.Duration{0, 23*time.Hour + 58*time.Minute, day - time.Minute - time.Nanosecond, day - time.Minute, day, 40 * day}
	depth := 3
	if ch.Thorough() {
		depth = 5
	}
	seen := map[string]bool{}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []node
		for _, n := range frontier {
			ch.States(1, 0)
			for _, w := range waits {
				for si := range allSet {
					// Settings that skip behave alike for all answers, and
					// those differing only in their version need a few.
					for ai := range allAns {
						if d > 0 && !ch.Thorough() && si != 0 && si != 7 && ai > 1 {
							continue
						}
						if si != 0 && ai > 9 && !ch.Thorough() {
							continue
						}
						if ch.Enough() || ch.Expired() {
							return
						}
						o, why := transition(n, event{w, si, ai})
						ch.States(0, 1)
						ch.Validated(1)
						k := ""
						if !allSet[si].skip {
							k = fmt.Sprint(n.key(), "|", w, si, ai)
						}
						ch.Eval(k)
						if why != "" {
							ch.Violation("history: "+strings.Join(o.history, "; "), map[string]any{"why": why, "before": string(n.raw), "after": string(o.raw)})
						}
						if d == 1 && w == day && si == 0 {
							ch.Sample(map[string]any{"history": o.history, "cache": string(o.raw)})
						}
						key := o.key()
						if !seen[key] {
							seen[key] = true
							next = append(next, o)
						}
					}
				}
			}
		}
		frontier = next
		ch.Set(fmt.Sprintf("states_at_depth_%d", d+1), len(next))
	}
	ch.Set("distinct_states", len(seen))
	ch.Set("depth", depth)
}

// commands runs whole commands: the wiring in cmd.
func commands() {
	work, _ := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "work")
	defer os.RemoveAll(work)
	bf := filepath.Join(work, "Babfile.yml")
	_ = os.WriteFile(bf, []byte("tasks:\n  t:\n    run:\n      - cmd: ':'\n  f:\n    run:\n      - cmd: exit 4\n"), 0o644)
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	so, se := os.Stdout, os.Stderr
	keep, _ := syscall.Dup(2)
	_ = syscall.Dup3(int(null.Fd()), 2, 0)
	defer func() { _ = syscall.Dup3(keep, 2, 0) }()
	args := [][]string{{"-l"}, {"--validate"}, {"t"}, {"f"}, {"nope"}, {"-n", "t"}, {"--bad"}}
	now := time.Now()
	mk := func(age time.Duration, tag string) []byte {
		b, _ := json.Marshal(rec{now.Add(-age), tag, `"q"`})
		return b
	}
	caches := map[string][]byte{"none": nil, "newer": mk(time.Hour, "v1.3.0"), "old newer": mk(48*time.Hour, "v1.3.0"), "same": mk(time.Hour, "v1.2.0"), "old older": mk(48*time.Hour, "v1.1.0"), "broken": []byte("]")}
	outcomes := map[string]string{}
	for cname, raw := range caches {
		for si, s := range allSet {
			for ai, a := range allAns {
				if a.delay > 0 || a.stall || a.cancel || !ch.Thorough() && (ai > 8 && ai != 9 && ai != 21 || si > 1 && ai > 0) {
					continue
				}
				for _, ar := range args {
					if ch.Enough() || ch.Expired() {
						return
					}
					put(raw)
					apply(s)
					srv := &server{ans: a}
					http.DefaultTransport = srv
					var m model
					if json.Unmarshal(raw, &m.rec) == nil {
						m.has = true
					}
					want := predict(m, time.Now(), s, a)
					var buf bytes.Buffer
					log.SetDefault(log.New(&buf))
					os.Args = append([]string{"bab", "-b", bf}, ar...)
					os.Stdout, os.Stderr = null, null
					cmd.SetVersionInfo(s.current, "none", "")
					err := cmd.ExecuteContext(context.Background())
					os.Stdout, os.Stderr = so, se
					for i := 0; want.ask && i < 2000; i++ {
						if r := read(); want.after == m || !bytes.Equal(r, raw) {
							break
						}
						time.Sleep(time.Millisecond)
					}
					for i := 0; i < 2000 && busy(); i++ {
						time.Sleep(time.Millisecond)
					}
					key := fmt.Sprintf("%s/%s/%s/%v", cname, s.name, a.name, ar)
					ch.Eval("command " + key)
					ch.States(0, 1)
					announced := ""
					for _, l := range strings.Split(buf.String(), "\n") {
						if strings.Contains(l, "new version") {
							announced = l
						}
					}
					ok := func(mm model) bool {
						if s.skip || !mm.usable(time.Now()) || !newer(mm.LatestVersion, s.current) {
							return announced == ""
						}
						return strings.Contains(announced, "latest="+mm.LatestVersion) && strings.Contains(announced, "current="+s.current)
					}
					bad := ""
					if !ok(m) && !ok(want.after) {
						bad = fmt.Sprintf("announced %q", announced)
					}
					asks := 0
					if want.ask {
						asks = 1
					}
					if len(srv.asked) != asks {
						bad = fmt.Sprintf("%d requests, not %d", len(srv.asked), asks)
					}
					oc := fmt.Sprint(err)
					if w, seen := outcomes[fmt.Sprint(ar)]; !seen {
						outcomes[fmt.Sprint(ar)] = oc
					} else if w != oc {
						bad = fmt.Sprintf("the outcome is %q, not %q", oc, w)
					}
					if bad != "" {
						ch.Violation("command "+key, map[string]any{"why": bad, "log": buf.String()})
					}
				}
			}
		}
	}
	for k, v := range outcomes {
		fails := strings.Contains(k, "f]") || strings.Contains(k, "nope") || strings.Contains(k, "bad")
		if fails == (v == "<nil>") {
			ch.Violation("command "+k, map[string]any{"outcome": v})
		}
	}
}

// busy reports that the update code is still running somewhere.
func busy() bool {
	buf := make([]byte, 1<<18)
	return bytes.Contains(buf[:runtime.Stack(buf, true)], []byte("bab/internal/update."))
}

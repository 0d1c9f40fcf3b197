//go:build go1.25

package h

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	server "github.com/qiniu/uip/cmd/server"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/verifsim/rt"
	"github.com/qiniu/uip/verifsim/simnet"
	"github.com/qiniu/uip/verifsim/simos"
)

// C10: the HTTP server answers every request with its own address's record.
type c10 struct {
	DB      *DB      `json:"db"`
	Conns   []conn10 `json:"conns"`
	Late    []req10  `json:"late,omitempty"` // asked when all others are through
	Accepts int      `json:"accepts,omitempty"`
	Chunk   int      `json:"chunk,omitempty"`
	Sched   rt.Sched `json:"sched"`
	Map     uint64   `json:"map,omitempty"`
}

type req10 struct {
	T     string `json:"t"` // request target
	M     string `json:"m,omitempty"`
	Old   bool   `json:"old,omitempty"`   // HTTP/1.0
	Close bool   `json:"close,omitempty"` // Connection: close
	Body  int    `json:"body,omitempty"`
	Parts bool   `json:"parts,omitempty"` // the body comes in chunks
	Pad   int    `json:"pad,omitempty"`   // bytes of further header fields
	Zip   bool   `json:"zip,omitempty"`   // accepts gzip
	Raw   string `json:"raw,omitempty"`   // sent as it is
}

type conn10 struct {
	Start  int     `json:"start,omitempty"` // ms before dialling
	Reqs   []req10 `json:"reqs"`
	Pipe   bool    `json:"pipe,omitempty"` // sends all before it reads
	Cuts   []cut10 `json:"cuts,omitempty"`
	Chunk  int     `json:"chunk,omitempty"` // what one read gives the server
	Cap    int     `json:"cap,omitempty"`   // what the server may send unread
	Read   int     `json:"read,omitempty"`  // what the client reads at once
	Slow   int     `json:"slow,omitempty"`  // ms between reads
	End    string  `json:"end,omitempty"`   // reset, close, half, stall
	At     int     `json:"at,omitempty"`    // bytes sent before that
	Accept int     `json:"accept,omitempty"`
	Times  int     `json:"times,omitempty"` // the requests are repeated, on new connections if it ends them itself
}

type cut10 struct {
	At int `json:"at"`
	MS int `json:"ms,omitempty"`
}

func (q req10) bytes() []byte {
	if q.Raw != "" {
		return []byte(q.Raw)
	}
	m, v := q.M, "1.1"
	if m == "" {
		m = "GET"
	}
	if q.Old {
		v = "1.0"
	}
	s := fmt.Sprintf("%s %s HTTP/%s\r\nHost: uip.example\r\n", m, q.T, v)
	if q.Close {
		s += "Connection: close\r\n"
	}
	if q.Zip {
		s += "Accept-Encoding: gzip, deflate, br\r\nAccept: text/html, */*;q=0.8\r\n"
	}
	for k, n := 0, q.Pad; n > 0; k++ {
		m := n
		if m > 3000 {
			m = 3000
		}
		s += fmt.Sprintf("X-Pad-%d: %s\r\n", k, strings.Repeat("/9.9.9.9 ", m/9+1)[:m]+".")
		n -= m
	}
	body := strings.Repeat("GET /1.1.1.1 HTTP/1.1\r\n", q.Body/23+1)[:q.Body]
	switch {
	case q.Body > 0 && q.Parts && !q.Old:
		s += "Transfer-Encoding: chunked\r\n"
		body = fmt.Sprintf("1\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", body[:1], len(body)-1, body[1:])
		if q.Body == 1 {
			body = "1\r\nG\r\n0\r\n\r\n"
		}
	case q.Body > 0:
		s += fmt.Sprintf("Content-Length: %d\r\n", q.Body)
	}
	return []byte(s + "\r\n" + body)
}

func (q req10) method() string {
	if q.M == "" {
		return "GET"
	}
	return q.M
}

// what the answer to a request must be
type want10 struct {
	kind string // record, version, none, other (not a record)
	info *inf.IpInfo
	ver  *inf.VersionInfo
}

func (c *c10) want(m *Model, q req10) want10 {
	if q.Raw != "" || q.method() == "CONNECT" || q.T == "*" {
		return want10{kind: "other"}
	}
	u, err := url.ParseRequestURI(q.T)
	if err != nil || strings.Contains(q.T, " ") {
		return want10{kind: "other"}
	}
	p := u.Path
	if p == "" {
		return want10{kind: "other"}
	}
	cl := path.Clean(p)
	if strings.HasSuffix(p, "/") && cl != "/" {
		cl += "/"
	}
	if cl != p {
		return want10{kind: "other"}
	}
	if p == "/version" {
		v := versionWant(c.DB.Kind, c.DB.DS, c.DB.DS.Build, nil)
		return want10{kind: "version", ver: v}
	}
	ip := net.ParseIP(p[1:])
	if ip == nil {
		return want10{kind: "none"}
	}
	i, _, ok := c.DB.want(m, ip)
	if !ok {
		return want10{kind: "none"}
	}
	return want10{kind: "record", info: i}
}

func infoMap(i *inf.IpInfo) map[string]string {
	m := map[string]string{"country": i.Country, "district": i.District, "province": i.Province, "city": i.City,
		"asn": i.Asn, "isp": i.Isp, "continent": i.Continent, "line": i.Line}
	for k, v := range m {
		if v == "" {
			delete(m, k)
		}
	}
	return m
}

// check compares one response.
func (w want10) check(q req10, code int, body []byte) string {
	head := q.method() == "HEAD"
	switch w.kind {
	case "other":
		if code >= 200 && code < 300 && len(body) > 0 {
			return fmt.Sprintf("status %d, %s", code, clip(string(body), 200))
		}
		return ""
	case "none":
		if code != 404 {
			return fmt.Sprintf("status %d (%s) instead of 404", code, clip(string(body), 200))
		}
		return ""
	}
	if code != 200 {
		return fmt.Sprintf("status %d instead of 200", code)
	}
	if head {
		if len(body) > 0 {
			return "a body"
		}
		return ""
	}
	dec := json.NewDecoder(strings.NewReader(string(body)))
	dec.UseNumber()
	var got map[string]any
	if err := dec.Decode(&got); err != nil {
		return fmt.Sprintf("%s, which is no JSON object: %v", clip(string(body), 300), err)
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Sprintf("%s: more than one JSON value", clip(string(body), 300))
	}
	if w.kind == "version" {
		var v inf.VersionInfo
		if err := json.Unmarshal(body, &v); err != nil {
			return fmt.Sprintf("%s: %v", clip(string(body), 300), err)
		}
		v.Languages = nil
		return diffVersion(&v, w.ver)
	}
	want := infoMap(w.info)
	for k, v := range got {
		s, ok := v.(string)
		if !ok || s != want[k] {
			return fmt.Sprintf("%s instead of the record %q", clip(string(body), 400), want)
		}
		delete(want, k)
	}
	if len(want) > 0 {
		return fmt.Sprintf("%s without %q", clip(string(body), 400), want)
	}
	return ""
}

func sleep10(ms int) {
	if ms <= 0 {
		rt.Yield()
		return
	}
	t := time.Now().Add(time.Duration(ms) * time.Millisecond)
	rt.Block(func() bool { return !time.Now().Before(t) })
}

// slowReader is the client's end while it reads.
type slowReader struct {
	c    *simnet.Conn
	n    int
	slow int
}

func (s *slowReader) Read(b []byte) (int, error) {
	if s.slow > 0 {
		sleep10(s.slow)
	}
	rt.Block(func() bool { n, eof := s.c.Avail(); return n > 0 || eof })
	if s.n > 0 && len(b) > s.n {
		b = b[:s.n]
	}
	n, err := s.c.Read(b)
	rt.Yield()
	return n, err
}

const addr10 = "127.0.0.1:8080"

// clients runs a client connection, or as many as it repeats.
func (c *c10) clients(k int, cn conn10, m *Model, report func(string, string), note func(string)) {
	if cn.Times > 1 && cn.End != "" {
		one := cn
		for i := 0; i < cn.Times; i++ {
			c.client(k, one, m, report, note)
			one.Start = 0
		}
		return
	}
	reqs := cn.Reqs
	for i := 1; i < cn.Times; i++ {
		cn.Reqs = append(cn.Reqs[:len(cn.Reqs):len(cn.Reqs)], reqs...)
	}
	c.client(k, cn, m, report, note)
}

// client is one client connection.
func (c *c10) client(k int, cn conn10, m *Model, report func(string, string), note func(string)) {
	sleep10(cn.Start)
	simnet.AcceptErrs.Add(int32(cn.Accept))
	conn, err := simnet.Dial(addr10, fmt.Sprintf("10.0.0.%d:40000", k+1), cn.Chunk, cn.Cap)
	if err != nil {
		report("refused", fmt.Sprintf("connection %d is refused: %v", k, err))
		return
	}
	rt.Yield()
	sent, total := 0, 0
	cuts := append([]cut10{}, cn.Cuts...)
	sort.SliceStable(cuts, func(i, j int) bool { return cuts[i].At < cuts[j].At })
	pauses := cn.Slow * 50
	for _, x := range cuts {
		pauses += x.MS
	}
	over := false
	send := func(b []byte) {
		for len(b) > 0 && !over {
			n := len(b)
			pause := -1
			for len(cuts) > 0 && cuts[0].At <= sent {
				cuts = cuts[1:]
			}
			if len(cuts) > 0 && cuts[0].At < sent+n {
				n, pause = cuts[0].At-sent, cuts[0].MS
				cuts = cuts[1:]
			}
			if cn.End != "" && cn.At < sent+n {
				n, over = cn.At-sent, true
				if n < 0 {
					n = 0
				}
			}
			if _, err := conn.Write(b[:n]); err != nil {
				return
			}
			sent += n
			b = b[n:]
			if pause >= 0 {
				sleep10(pause)
			} else {
				rt.Yield()
			}
		}
	}
	rd := bufio.NewReader(&slowReader{conn, cn.Read, cn.Slow})
	must := pauses <= 1000
	// receive reads the response to a request; false if there is no more
	receive := func(i int, q req10, complete bool) bool {
		if q.Raw != "" {
			sleep10(10)
			if n, _ := conn.Avail(); n == 0 {
				return false // it may have to wait for more
			}
		}
		resp, err := http.ReadResponse(rd, &http.Request{Method: q.method()})
		var body []byte
		if err == nil {
			body, err = io.ReadAll(resp.Body)
			if err == nil && resp.Header.Get("Content-Encoding") == "gzip" && q.Zip && len(body) > 0 {
				var z *gzip.Reader
				if z, err = gzip.NewReader(bytes.NewReader(body)); err == nil {
					body, err = io.ReadAll(z)
				}
				if err != nil && complete {
					report("answer", fmt.Sprintf("connection %d, request %d (%s %s) is answered by broken gzip: %v", k, i, q.method(), q.T, err))
				}
			}
		}
		if err != nil {
			if complete && must && q.Raw == "" && c.want(m, q).kind != "other" {
				report("unanswered", fmt.Sprintf("connection %d, request %d (%s %s) gets no complete response: %v", k, i, q.method(), q.T, err))
			}
			return false
		}
		if !complete && resp.StatusCode/100 == 2 && q.Body == 0 {
			report("early", fmt.Sprintf("connection %d, request %d (%s %s) is answered though it never arrived completely", k, i, q.method(), q.T))
		}
		if complete && q.Raw == "" {
			if e := c.want(m, q).check(q, resp.StatusCode, body); e != "" {
				report("answer", fmt.Sprintf("connection %d, request %d (%s %s) is answered by %s", k, i, q.method(), q.T, e))
			}
			total++
		}
		return !resp.Close && q.Raw == "" && q.method() != "CONNECT"
	}
	if cn.Pipe {
		var ends []int
		for _, q := range cn.Reqs {
			b := q.bytes()
			end := len(b)
			if len(ends) > 0 {
				end += ends[len(ends)-1]
			}
			ends = append(ends, end)
			send(b)
		}
		if cn.End == "half" {
			conn.CloseWrite()
			rt.Yield()
		}
		if cn.End == "" || cn.End == "half" {
			for i, q := range cn.Reqs {
				if !receive(i, q, sent >= ends[i]) || q.Close || q.Old {
					break
				}
			}
		}
	} else {
		for i, q := range cn.Reqs {
			b := q.bytes()
			at := sent
			send(b)
			if over {
				if cn.End == "half" {
					conn.CloseWrite()
					rt.Yield()
					receive(i, q, sent >= at+len(b))
				}
				break
			}
			if !receive(i, q, true) || q.Close || q.Old {
				break
			}
		}
	}
	switch cn.End {
	case "reset":
		conn.Reset()
		note("client-reset")
	case "stall":
		note("client-stall")
		return // keeps the connection
	default:
		if cn.End != "" {
			note("client-" + cn.End)
		}
		conn.Close()
	}
	rt.Yield()
	if total > 0 {
		note("")
	}
}

var odd10 = []string{"/", "/1.2.3", "/1.2.3.4.5", "/256.1.1.1", "/foo", "/version/", "/versionx", "/version?x=1", "/1.2.3.4/", "/1.2.3.4/24", "//1.2.3.4", "/../8.8.8.8",
	"/./version", "/%20", "/%00", "/8.8.8.8%20", "/::1%25eth0", "/[::1]", "/01.02.03.04", "/:::", "/1.2.3.4:80", "/%zz", "/-1", "/134744072", "/0x08080808", "http://x", "http://x/", "/Version", "/%76ersion",
	"/%E4%B8%AD", "/" + strings.Repeat("1", 3000), "/fe80::1%25lo", "?", "/favicon.ico", "/null", "/version;x"}

var raws10 = []string{"GET\r\n\r\n", "\r\n\r\n\r\n", "GET /8.8.8.8 HTTP/1.1\r\n\r\n", "GET /8.8.8.8 HTTP/9.9\r\nHost: a\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00", "GET /8.8.8.8 HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\n",
	"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "GET /8.8.8.8 HTTP/1.1\nHost: a\nBad Header\n\n", "GET 8.8.8.8 HTTP/1.1\r\nHost: a\r\n\r\n", "CONNECT uip.example:80 HTTP/1.1\r\nHost: uip.example:80\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: a\r\n\r\n",
	"CONNECT / HTTP/1.1\r\nHost: a\r\n\r\n", "GET http://a?x HTTP/1.1\r\nHost: a\r\n\r\n", "CONNECT http://a HTTP/1.1\r\nHost: a\r\n\r\n", "GET /8.8.8.8 HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}

func genReq10(r *Rand, ips []net.IP) req10 {
	var q req10
	switch r.N(10) {
	case 0:
		q.T = odd10[r.N(len(odd10))]
	case 1:
		q.T = "/version"
	default:
		ip := ips[r.N(len(ips))]
		s := ip.String()
		switch r.N(12) {
		case 0:
			if len(ip) == 4 || ip.To4() != nil {
				s = "::ffff:" + s
			}
		case 1:
			s = strings.ToUpper(s)
		case 2:
			s = fmt.Sprintf("%%%x", s[0]) + s[1:]
		case 3: // an address and something more
			s = r.S("%20"+s, s+"%20", s+"%0a", s+":80", "["+s+"]", "["+s+"]:80", s+"%2f24", s+"%25lo", "0"+s, s+".", s+",", s+"%23", s+"%00", s+"?x", s+"#x")
		}
		q.T = "/" + s
		switch r.N(16) {
		case 0:
			q.T += "?" + ips[r.N(len(ips))].String()
		case 1:
			q.T = "http://other.example" + q.T
		}
	}
	switch r.N(12) {
	case 0:
		q.M = "HEAD"
	case 1:
		q.M, q.Body, q.Parts = "POST", r.I(0, 1, 30, 900), r.One(3)
	case 2:
		q.M = r.S("PUT", "DELETE", "OPTIONS", "PATCH", "QUERY")
	}
	if r.One(12) {
		q.Close = true
	}
	if r.One(16) {
		q.Old = true
	}
	if r.One(16) {
		q.Pad = r.I(1, 500, 4000, 4096, 9000, r.In(10000, 60000))
	}
	q.Zip = r.One(6)
	return q
}

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "a case is a database, 1-6 client connections (requests, pipelining, cut points and pauses, buffer sizes, slow reading, reset, close or stall at a byte) and a schedule of the request handlers; every response is compared with a model of the database; " +
			"non-trivial if a response was compared and at least two tasks were runnable at a decision",
		Real: []string{"cmd/server (its main)", "db/query", "db/format/ipdb, awdb (readers)", "net/http (standard library, uninstrumented)"},
		Stub: []string{"network (in-memory connections)", "goroutine scheduler of the handlers", "clock", "file system"},
		New:  func() any { return &c10{} },
		Gen: func(r *Rand, tier string) any {
			bulk := r.One(50)
			c := &c10{DB: genDB(r, dsOpt{special: r.One(3), bulk: bulk, big: r.One(300)}), Sched: genSched(r)}
			if r.One(3) && !bulk { // answers longer than any buffer of the server
				ds := c.DB.DS
				for k := r.In(1, 3); k > 0 && len(ds.R) > 0; k-- {
					ds.R[r.N(len(ds.R))].V[r.N(len(ds.F))] = strings.Repeat(r.S("long ", "值", "<&>"), r.In(800, 3000))
				}
			}
			m := newModel(c.DB.DS)
			ips := m.probes(r, 12)
			if r.One(3) { // few addresses, asked for by all
				ips = m.probes(r, 2)
			}
			n := r.In(1, 5)
			for i := 0; i < n; i++ {
				cn := conn10{Pipe: r.One(3)}
				if r.One(4) {
					cn.Start = r.I(0, 1, 5, 100)
				}
				size := 0
				for k := r.In(1, 5); k > 0; k-- {
					q := genReq10(r, ips)
					if r.One(25) {
						q = req10{Raw: raws10[r.N(len(raws10))]}
					}
					cn.Reqs = append(cn.Reqs, q)
					size += len(q.bytes())
				}
				for k := r.I(0, 0, 0, 1, 2, 4); k > 0; k-- {
					cn.Cuts = append(cn.Cuts, cut10{r.N(size), r.I(0, 0, 1, 10, 100, 3000, 70000, 4000000)})
				}
				if r.One(3) {
					cn.Chunk = r.I(1, 7, 64, 1000)
				}
				if r.One(3) {
					cn.Cap = r.I(1, 100, 1000, 4096)
				}
				if r.One(4) {
					cn.Read = r.I(1, 10, 500)
				}
				if r.One(6) {
					cn.Slow = r.I(1, 10, 20, 60000)
				}
				if cn.Read == 1 && cn.Slow > 1 {
					cn.Read = 500
				}
				if r.One(3) {
					cn.End = r.S("reset", "reset", "close", "half", "stall", "stall")
					cn.At = r.N(size + 1)
				}
				if r.One(12) {
					cn.Accept = r.In(1, 3)
				}
				if i == n-1 && r.One(6) { // a resource that is not given back runs out
					cn.Reqs, cn.Pipe, cn.Cuts, cn.Slow, cn.Times = cn.Reqs[:1], r.One(3), nil, 0, r.In(20, 160)
					if r.One(2) {
						cn.Reqs = []req10{{T: r.S("/200.1.2.3", "/1.2.3", "/version", "/2001::1", "/x")}}
					}
					q := &cn.Reqs[0]
					q.Close, q.Old, q.Body, q.Pad = false, false, 0, 0
					size = len(q.bytes())
					if cn.End != "" {
						cn.Times /= 4
						cn.At = r.N(size + 1)
						if r.One(12) { // many that keep their connection
							cn.End, cn.Times, cn.Accept = "stall", r.In(150, 700), 0
						}
					}
				}
				c.Conns = append(c.Conns, cn)
			}
			for k := r.In(1, 3); k > 0; k-- {
				c.Late = append(c.Late, genReq10(r, ips))
			}
			if r.One(10) {
				c.Accepts = r.In(1, 4)
			}
			if r.One(5) {
				c.Chunk = r.I(64, 511, 4096)
			}
			if r.One(3) {
				c.Map = r.U64()
			}
			return c
		},
		Run: func(ci any, x *Ctx) *Verdict {
			c := ci.(*c10)
			if c.DB == nil || !c.DB.valid() || len(c.DB.Dmg) > 0 || len(c.Conns)+len(c.Late) == 0 || (c.DB.Kind != ".ipdb" && c.DB.Kind != ".awdb") {
				return invalid("db")
			}
			for _, cn := range c.Conns {
				if len(cn.Reqs) == 0 || cn.Slow < 0 || cn.Start < 0 || cn.At < 0 || cn.Accept < 0 || cn.Accept > 10 || cn.Times < 0 || cn.Times > 1000 {
					return invalid("conn")
				}
				for _, q := range cn.Reqs {
					if q.Raw == "" && q.T == "" || q.Body < 0 || q.Body > 2000 || q.Pad < 0 || q.Pad > 100000 {
						return invalid("request")
					}
				}
			}
			rt.SetMapSeed(c.Map)
			m := newModel(c.DB.DS)
			fsys := simos.New()
			simos.Mount(fsys)
			fsys.Chunk = c.Chunk
			name := "/w/db" + c.DB.Kind
			fsys.Put(name, c.DB.bytes())
			simos.Args = []string{"server", name, addr10}
			simnet.AcceptErrs.Store(int32(c.Accepts))
			var v *Verdict
			var mu sync.Mutex
			report := func(class, s string) {
				mu.Lock()
				defer mu.Unlock()
				if v == nil {
					v = bad(class, "%s", s)
				}
			}
			notes := map[string]int{}
			note := func(k string) {
				mu.Lock()
				notes[k]++
				mu.Unlock()
			}
			var ended, down atomic.Bool
			var left atomic.Int32
			proc := &rt.Proc{}
			tasks := []rt.Task{{Proc: proc, F: func() {
				server.SimMain()
				ended.Store(true)
			}}}
			left.Store(int32(len(c.Conns)))
			up := func() bool { return simnet.Listening(addr10) || ended.Load() || down.Load() }
			for k := range c.Conns {
				tasks = append(tasks, rt.Task{Proc: proc, F: func() {
					defer func() { left.Add(-1) }()
					rt.Block(up)
					c.clients(k, c.Conns[k], m, report, note)
				}})
			}
			if len(c.Late) > 0 {
				tasks = append(tasks, rt.Task{Proc: proc, F: func() {
					rt.Block(up)
					rt.Block(func() bool { return left.Load() == 0 || down.Load() })
					if down.Load() {
						return // somebody waited for ever
					}
					c.client(100, conn10{Reqs: c.Late}, m, report, note)
				}})
			}
			early := false
			res := rt.Run(c.Sched, openBudget*(len(tasks)+1), func() bool {
				early = ended.Load()
				down.Store(true)
				simnet.Shutdown()
				return true
			}, tasks...)
			time.Sleep(time.Hour) // lingering connections end
			x.Segs = res.Segs
			x.Extra = rt.SchedHash
			x.Nontrivial = rt.Multi && notes[""] > 0
			for _, k := range sortedKeys(notes) {
				if k != "" {
					simos.Fired[k] += notes[k]
				}
			}
			if proc.Exited && !down.Load() {
				return bad("exit", "the server process ended itself with status %d", proc.Code)
			}
			if v != nil {
				return v
			}
			if early {
				return bad("ended", "the server stopped listening")
			}
			return verdictOf(res, "serving")
		},
	})
}

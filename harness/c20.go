//go:build c20 || all

package main

import (
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/config"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"pgregory.net/rapid"

	"verif/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C20", Quick: 300000, Thorough: 4000000,
		Rule: "a history of at least two requests hitting a documented route and something else, or a helper call with a body, or a collector history of three steps",
		Assumptions: []string{
			"requests go to the echo server set up by controllers.Setup (a third of the histories also with config.Setup) through ServeHTTP; a sample of them over loopback TCP",
			"paths are unescaped; the empty path and percent-encodings of the documented paths are left out",
		},
	}, genC20, runC20, fixedC20()...)
}

// APICase is a history of requests, or of helper or collector calls.
type APICase struct {
	Reqs []APIReq `json:"reqs,omitempty"`
	TCP  bool     `json:"tcp,omitempty"`
	Conf bool     `json:"conf,omitempty"`
	// Repeat: the history is gone through so many times more on the same server.
	Repeat int `json:"repeat,omitempty"`

	Helper string           `json:"helper,omitempty"` // response, jsonObject, array, error
	Status int              `json:"status,omitempty"`
	Body   map[string]any   `json:"body,omitempty"`
	Items  []map[string]any `json:"items,omitempty"`
	Msg    string           `json:"msg,omitempty"`

	Errs []ErrOp `json:"errs,omitempty"`
}

// ErrOp is one call of the error collector.
type ErrOp struct {
	Op    string `json:"op"` // add, min, max, clear
	Field string `json:"field,omitempty"`
	Msg   string `json:"msg,omitempty"`
	Value int    `json:"value,omitempty"`
	Bound int    `json:"bound,omitempty"`
}

func word(t *rapid.T) string {
	return fw.OneOf(t, "", "ok", "message", "items", "count", "a", "システム", "x y", "<b>", "\"", "\\", "\n", "0", "names", "é", "😀", "system")
}

func value(t *rapid.T, depth int) any {
	k := fw.Pick(t, 7)
	if depth <= 0 && k >= 5 {
		k = 0
	}
	switch k {
	case 0:
		return word(t)
	case 1:
		return float64(fw.IntIn(t, -5, 1000))
	case 2:
		return fw.Coin(t, 50)
	case 3:
		return nil
	case 4:
		return float64(fw.IntIn(t, 0, 100)) / 8
	case 5:
		l := []any{}
		for i, n := 0, fw.Pick(t, 4); i < n; i++ {
			l = append(l, value(t, depth-1))
		}
		return l
	}
	return body(t, depth-1)
}

func body(t *rapid.T, depth int) map[string]any {
	m := map[string]any{}
	for i, n := 0, fw.Pick(t, 5); i < n; i++ {
		m[word(t)] = value(t, depth)
	}
	return m
}

func genC20(t *rapid.T) *APICase {
	c := &APICase{}
	switch fw.Weighted(t, 50, 25, 25) {
	case 0:
		n := fw.IntIn(t, 1, 10)
		for i := 0; i < n; i++ {
			r := genReq(t)
			r.Scribble = fw.Coin(t, 20)
			c.Reqs = append(c.Reqs, r)
		}
		c.TCP = fw.Bits(t, 7) == 127
		c.Conf = fw.Coin(t, 33)
		if !c.TCP && fw.Coin(t, 1) {
			c.Repeat = fw.OneOf(t, 1, 10, 100)
		}
	case 1:
		c.Helper = fw.OneOf(t, "response", "jsonObject", "array", "error")
		c.Status = fw.OneOf(t, 200, 200, 200, 201, 202, 400, 401, 404, 405, 418, 422, 500, 503, 299, 301, 302, 206)
		c.Body = body(t, 2)
		n := fw.Pick(t, 6)
		if fw.Coin(t, 5) {
			n = fw.OneOf(t, 300, 1100)
		}
		for i := 0; i < n; i++ {
			c.Items = append(c.Items, body(t, 1))
		}
		c.Msg = word(t) + word(t)
	case 2:
		n := fw.IntIn(t, 1, 20)
		field := func() string { return fw.OneOf(t, "a", "b", "値", "") }
		if fw.Coin(t, 5) { // many fields
			n = fw.OneOf(t, 40, 150, 600)
			field = func() string { return "f" + itoa(fw.Pick(t, n)) }
		}
		for i := 0; i < n; i++ {
			o := ErrOp{Op: fw.OneOf(t, "add", "min", "min", "max", "max", "clear"), Field: field(), Msg: fw.OneOf(t, "m1", "m2", "", "小さすぎます")}
			if o.Op == "clear" && fw.Coin(t, 60) {
				o.Op = "add"
			}
			o.Bound = fw.OneOf(t, 0, 1, -1, 100, 1<<62, -1<<62, 7)
			o.Value = o.Bound + fw.OneOf(t, -1, 0, 1, -100, 100, 0)
			if fw.Coin(t, 10) {
				o.Value = fw.OneOf(t, -1<<63, 1<<63-1, 0)
			}
			c.Errs = append(c.Errs, o)
		}
	}
	return c
}

type jsonObject map[string]any

// ToResponseMap is part of the interface.
func (o jsonObject) ToResponseMap() helpers.ResponseMap {
	m := helpers.ResponseMap{}
	for k, v := range o {
		m[k] = v
	}
	return m
}

func runC20(c *APICase, m *fw.Meta) error {
	switch {
	case len(c.Reqs) > 0:
		return runRequests(c, m)
	case c.Helper != "":
		return runHelper(c, m)
	}
	return runCollector(c, m)
}

func runRequests(c *APICase, m *fw.Meta) error {
	e := echo.New()
	if c.Conf && config.Environment != "production" {
		config.Setup(e)
	}
	controllers.Setup(e)
	var srv *httptest.Server
	if c.TCP {
		srv = httptest.NewServer(e)
		defer srv.Close()
		m.Class(true, "over TCP")
	}
	good, bad := 0, 0
	last := map[string]http.Header{}
	for i := 0; i < len(c.Reqs)*(c.Repeat+1); i++ {
		r := c.Reqs[i%len(c.Reqs)]
		if r.Scribble {
			ids := dicebotlist.AvailableGameIDs(true)
			for j := range ids {
				ids[j] = "scribbled"
			}
			names := dicebotlist.AvailableGameInfos(true)
			for j := range names.Name {
				names.Name[j] = dicebotlist.SystemInfo{System: "scribbled"}
			}
		}
		url := r.Path
		if r.Query != "" {
			url += "?" + r.Query
		}
		base := ""
		if srv != nil {
			if r.Method == "CONNECT" || r.Method == "HEAD" || strings.HasPrefix(r.Path, "//") {
				continue
			}
			base = srv.URL
		} else if strings.HasPrefix(url, "//") {
			base = "http://host"
		}
		req, err := http.NewRequest(r.Method, base+url, strings.NewReader(r.Body))
		if err != nil {
			continue
		}
		r.setHeader(req, last)
		var code int
		var got []byte
		var ctype string
		if srv != nil {
			res, err := srv.Client().Do(req)
			if err != nil {
				return errf("request %d, %s %s: %v", i+1, r.Method, url, err)
			}
			got, _ = io.ReadAll(res.Body)
			res.Body.Close()
			code, ctype = res.StatusCode, res.Header.Get("Content-Type")
			last[r.Method+r.Path] = res.Header
		} else {
			rec := httptest.NewRecorder()
			e.ServeHTTP(rec, req)
			code, got, ctype = rec.Code, rec.Body.Bytes(), rec.Header().Get("Content-Type")
			last[r.Method+r.Path] = rec.Header()
		}
		m.Class(len(r.Header) > 0, "request with headers")
		name := errf("request %d, %s %s", i+1, r.Method, url).Error()
		want := documented(r.Method, r.Path)
		if err := checkAnswer(name, want, code, got, ctype); err != nil {
			return err
		}
		if want == nil {
			bad++
			m.Class(code == 405, "wrong method")
			m.Class(code == 404, "unknown path")
		} else {
			good++
			m.Class(true, "route "+r.Path)
		}
	}
	m.NonTrivial = good > 0 && good+bad >= 2
	return nil
}

func runHelper(c *APICase, m *fw.Meta) error {
	e := echo.New()
	rec := httptest.NewRecorder()
	req, _ := http.NewRequest("GET", "/", nil)
	ctx := e.NewContext(req, rec)
	want := map[string]any{}
	var err error
	switch c.Helper {
	case "response":
		err = helpers.JSONResponse(ctx, c.Status, jsonObject(c.Body).ToResponseMap())
		for k, v := range c.Body {
			want[k] = v
		}
	case "jsonObject":
		err = helpers.JSONResponseObject(ctx, c.Status, jsonObject(c.Body))
		for k, v := range c.Body {
			want[k] = v
		}
	case "array":
		items := []helpers.ResponseMap{}
		for _, it := range c.Items {
			items = append(items, jsonObject(it).ToResponseMap())
		}
		if len(items) == 0 {
			want["items"] = []any{}
		} else {
			want["items"] = c.Items
		}
		want["count"] = len(c.Items)
		err = helpers.JSONResponseArray(ctx, c.Status, items)
	case "error":
		re := helpers.NewResponseError(c.Status, c.Msg)
		if re.Code != c.Status || re.Message != c.Msg {
			return errf("NewResponseError(%d, %q) = %+v", c.Status, c.Msg, *re)
		}
		if s := re.Error(); !strings.Contains(s, itoa(c.Status)) || !strings.Contains(s, c.Msg) {
			return errf("NewResponseError(%d, %q).Error() = %q", c.Status, c.Msg, s)
		}
		want["message"] = c.Msg
		err = helpers.JSONResponseError(ctx, re)
	}
	want["ok"] = c.Status == 200
	if err != nil {
		return errf("%s: %v", c.Helper, err)
	}
	if rec.Code != c.Status {
		return errf("%s with status %d sends status %d", c.Helper, c.Status, rec.Code)
	}
	if ct := rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		return errf("%s: content type %q", c.Helper, ct)
	}
	v, jerr := decodeJSON(rec.Body.Bytes())
	if jerr != nil {
		return errf("%s: %v: %s", c.Helper, jerr, rec.Body.String())
	}
	if !reflect.DeepEqual(v, plainJSON(want)) {
		return errf("%s with status %d sends %s, want %v", c.Helper, c.Status, rec.Body.String(), plainJSON(want))
	}
	m.NonTrivial = len(c.Body) > 0 || c.Helper == "error" || c.Helper == "array" && len(c.Items) > 0
	m.Class(true, "helper "+c.Helper)
	m.Class(c.Status == 200, "helper with status 200")
	return nil
}

func runCollector(c *APICase, m *fw.Meta) error {
	e, other := helpers.NewErrors(), helpers.NewErrors()
	want := map[string]string{}
	for i, o := range c.Errs {
		switch o.Op {
		case "add":
			e.Add(o.Field, o.Msg)
			want[o.Field] = o.Msg
		case "min":
			e.ValidateMinValue(o.Value, o.Bound, o.Field, o.Msg)
			if o.Value < o.Bound {
				want[o.Field] = o.Msg
			}
		case "max":
			e.ValidateMaxValue(o.Value, o.Bound, o.Field, o.Msg)
			if o.Value > o.Bound {
				want[o.Field] = o.Msg
			}
		case "clear":
			e.Clear()
			want = map[string]string{}
		}
		if !reflect.DeepEqual(e.Messages, want) {
			return errf("after step %d (%+v) the messages are %s, want %s", i+1, o, showMap(e.Messages), showMap(want))
		}
		if e.HasMessages() != (len(want) > 0) {
			return errf("after step %d (%+v) HasMessages is %v with %d messages", i+1, o, e.HasMessages(), len(want))
		}
		if other.HasMessages() || len(other.Messages) != 0 {
			return errf("step %d changed another collector", i+1)
		}
	}
	m.NonTrivial = len(c.Errs) >= 3
	m.Class(true, "collector")
	return nil
}

func showMap(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+": "+v)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

func fixedC20() []*APICase {
	var rs []APIReq
	for _, p := range []string{"/", "/v1/version", "/v1/systems", "/v1/names", "/v1", "/v1/", "/v1/names/", "/nothing"} {
		for _, me := range []string{"GET", "POST", "HEAD", "DELETE", "OPTIONS"} {
			rs = append(rs, APIReq{Method: me, Path: p}, APIReq{Method: me, Path: p, Scribble: true, Query: "a=1"})
		}
	}
	out := []*APICase{{Reqs: rs}, {Reqs: rs, TCP: true}, {Reqs: rs, Conf: true}}
	for _, r := range []APIReq{{Method: "GET", Path: "/"}, {Method: "GET", Path: "/v1/version"}, {Method: "GET", Path: "/v1/systems"}, {Method: "GET", Path: "/v1/names"}} {
		// long-lived servers, with wrong requests between and without
		out = append(out, &APICase{Reqs: []APIReq{r}, Repeat: 70000},
			&APICase{Reqs: []APIReq{r, {Method: "GET", Path: "/nothing"}, {Method: "POST", Path: r.Path}}, Repeat: 10000},
			&APICase{Reqs: []APIReq{r}, Repeat: 3000, TCP: true})
	}
	for _, p := range []string{"/", "/v1/version", "/v1/systems", "/v1/names", "/nothing"} {
		var rs []APIReq
		for i := 0; i < len(headers); i += 2 {
			rs = append(rs, APIReq{Method: "GET", Path: p, Header: headers[i : i+2]}, APIReq{Method: "GET", Path: p, Again: true})
		}
		for _, q := range []string{"callback=f", "pretty", "pretty=true", "format=xml", "fields=ok", "limit=1", "offset=1&limit=0", "page=2", "lang=en", "_method=DELETE", "jsonp=f", "q=Dice", "sort=-name", "id=DiceBot", "ok=false"} {
			rs = append(rs, APIReq{Method: "GET", Path: p, Query: q}, APIReq{Method: "POST", Path: p, Body: q, Form: true})
		}
		out = append(out, &APICase{Reqs: rs}, &APICase{Reqs: rs, TCP: true}, &APICase{Reqs: rs, Conf: true})
	}
	for _, h := range []string{"response", "jsonObject", "array", "error"} {
		for s := 200; s < 600; s++ {
			if s == 204 || s == 304 { // no body allowed
				continue
			}
			out = append(out, &APICase{Helper: h, Status: s, Body: map[string]any{"ok": "x", "a": 1.0}, Msg: "m", Items: []map[string]any{{"a": 1.0}, {"b": "x"}}})
		}
	}
	for _, n := range []int{300, 1100, 3000, 12000, 70000} {
		c := &APICase{Helper: "array", Status: 200, Body: map[string]any{}}
		for i := 0; i < n; i++ {
			c.Items = append(c.Items, map[string]any{"i": float64(i)})
		}
		out = append(out, c)
	}
	many := &APICase{}
	for i := 0; i < 3000; i++ {
		many.Errs = append(many.Errs, ErrOp{Op: []string{"add", "min", "max"}[i%3], Field: "f" + itoa(i), Msg: "m" + itoa(i), Value: 3, Bound: 4 - i%3})
	}
	return append(out, many, &APICase{Errs: append(append(append([]ErrOp{}, many.Errs...), ErrOp{Op: "clear"}), many.Errs...)})
}

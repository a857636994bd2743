//go:build c20 || c29 || all

package main

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strings"

	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/pkg/version"
	"pgregory.net/rapid"

	"verif/fw"
)

// APIReq is one request.
type APIReq struct {
	Method, Path, Query, Body string
	Form                      bool
	Scribble                  bool // overwrite lists the library returned before the request
	// Header has names and values of headers; Again repeats the validators and
	// cookies of the previous answer for the path.
	Header []string `json:",omitempty"`
	Again  bool     `json:",omitempty"`
}

var headers = []string{
	"Accept", "text/plain", "Accept", "text/html", "Accept", "*/*", "Accept", "", "Accept", "application/xml;q=0.9, */*;q=0.1", "Accept", "application/json", "Accept", "image/png", "Accept", "text/html,application/xhtml+xml",
	"If-None-Match", "*", "If-None-Match", "\"x\"", "If-Match", "\"x\"", "If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT", "If-Unmodified-Since", "Mon, 01 Jan 1990 00:00:00 GMT", "If-Range", "\"x\"",
	"Range", "bytes=0-1", "Range", "items=0-0", "X-HTTP-Method-Override", "DELETE", "X-HTTP-Method-Override", "GET", "X-Method-Override", "GET", "Accept-Language", "en", "Accept-Language", "ja,en;q=0.5", "Accept-Charset", "shift_jis", "Accept-Charset", "utf-16",
	"User-Agent", "curl/7.0", "User-Agent", "", "User-Agent", "Mozilla/5.0 (iPhone)", "User-Agent", "Googlebot", "Origin", "http://example.com", "Referer", "http://example.com/", "Authorization", "Bearer x", "Authorization", "Basic YTpi", "Cookie", "a=b", "Cookie", "session=1; lang=en", "X-Forwarded-For", "1.2.3.4", "X-Forwarded-Host", "example.com", "X-Forwarded-Proto", "https", "X-Real-IP", "::1", "X-Requested-With", "XMLHttpRequest", "X-Request-ID", "1", "Cache-Control", "no-cache", "Cache-Control", "max-age=0", "Cache-Control", "only-if-cached", "Pragma", "no-cache", "Prefer", "return=minimal", "DNT", "1", "Content-Type", "application/json", "Content-Type", "text/xml", "Access-Control-Request-Method", "GET", "X-Original-URL", "/nothing", "X-Rewrite-URL", "/nothing", "TE", "trailers", "Via", "1.1 x", "Host", "example.com", "Host", "",
}

// genHeader makes headers.
func genHeader(t *rapid.T) []string {
	var out []string
	for n := fw.IntIn(t, 1, 3); n > 0; n-- {
		i := 2 * fw.Pick(t, len(headers)/2)
		out = append(out, headers[i], headers[i+1])
	}
	return out
}

// setHeader gives the request its headers; last has those of the previous
// answers for each method and path.
func (r *APIReq) setHeader(req *http.Request, last map[string]http.Header) {
	if r.Form {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for i := 0; i+1 < len(r.Header); i += 2 {
		if r.Header[i] == "Host" {
			if r.Header[i+1] != "" {
				req.Host = r.Header[i+1]
			}
			continue
		}
		req.Header.Set(r.Header[i], r.Header[i+1])
	}
	if h := last[r.Method+r.Path]; h != nil && r.Again {
		for from, to := range map[string]string{"ETag": "If-None-Match", "Last-Modified": "If-Modified-Since", "Set-Cookie": "Cookie", "X-Request-ID": "X-Request-ID"} {
			if v := h.Get(from); v != "" {
				v, _, _ = strings.Cut(v, ";")
				req.Header.Set(to, v)
			}
		}
	}
}

// genReq makes a request, mostly to a documented route or close to it.
func genReq(t *rapid.T) APIReq {
	r := APIReq{Method: "GET"}
	if fw.Coin(t, 25) {
		r.Method = fw.OneOf(t, "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "get", "CONNECT", "FOO")
	}
	r.Path = fw.OneOf(t, "/", "/v1/version", "/v1/systems", "/v1/names", "/v1/names")
	switch fw.Weighted(t, 60, 15, 15, 10) {
	case 1: // one edit
		p := fw.IntIn(t, 1, len(r.Path))
		switch fw.Pick(t, 3) {
		case 0:
			r.Path = r.Path[:p] + fw.OneOf(t, "s", "/", "x", "V", "1", "-", ".", ":", "*", "_") + r.Path[p:]
		case 1:
			if p < len(r.Path) {
				r.Path = r.Path[:p] + r.Path[p+1:]
			}
		case 2:
			r.Path = r.Path[:p]
		}
	case 2:
		r.Path = fw.OneOf(t, "/v1", "/v1/", "/v2/names", "/version", "/systems", "/names", "/V1/names", "/v1/Names", "/v1/names/", "/v1/names/DiceBot", "//", "//v1/names", "/v1//names", "/index.html", "/v1/versions", "/v1/system", "/v1/name", "/v1/v1/names", "/favicon.ico", "/v1/systeminfo", "/v1/diceroll", "/v1/:x", "/*", "/v1/versionsystems")
	case 3:
		r.Path = "/" + fw.OneOf(t, "v1/", "", "v") + word2(t) + fw.OneOf(t, "", "/", "/names")
	}
	if fw.Coin(t, 30) {
		r.Query = fw.OneOf(t, "a=1", "system=DiceBot&command=2D6", "ok=false", "x", "callback=f", "_method=DELETE", "pretty", "pretty=true", "format=xml", "fields=ok", "limit=1", "offset=1&limit=0", "page=2", "lang=en", "jsonp=f", "q=Dice", "sort=-name", "id=DiceBot", "%zz", "a=%E3%81%82")
	}
	switch fw.Weighted(t, 94, 2, 4) { // long ones
	case 1:
		r.Path += "/" + strings.Repeat(fw.OneOf(t, "x", "names/", "v1/"), fw.OneOf(t, 60, 300, 1000, 3000)) + "x"
	case 2:
		r.Query = "a=" + strings.Repeat(fw.OneOf(t, "x", "b&c=", "%20"), fw.OneOf(t, 20, 90, 300, 700, 1500, 4000))
	}
	if fw.Coin(t, 25) {
		r.Body = fw.OneOf(t, "a=1", "{}", "{\"ok\":false}", strings.Repeat("x", 5000))
		r.Form = fw.Coin(t, 50)
	}
	if fw.Coin(t, 30) {
		r.Header = genHeader(t)
	}
	r.Again = fw.Coin(t, 30)
	return r
}

func word2(t *rapid.T) string {
	s := ""
	for i, n := 0, fw.IntIn(t, 1, 4); i < n; i++ {
		s += fw.OneOf(t, "v", "1", "n", "ame", "s", "sys", "tem", "ver", "sion", "a", "0", "x")
	}
	return s
}

// decodeJSON decodes one value and nothing else.
func decodeJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errf("trailing text after the JSON value")
	}
	return v, nil
}

// plainJSON passes a value through JSON.
func plainJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var out any
	json.Unmarshal(b, &out)
	return out
}

// documented is the answer of a documented route.
func documented(method, path string) map[string]any {
	if method != "GET" {
		return nil
	}
	switch path {
	case "/":
		return map[string]any{"ok": true, "message": "Hello. This is GoBCDiceAPI."}
	case "/v1/version":
		return map[string]any{"ok": true, "api": version.API_VERSION, "bcdice": version.BCDICE_VERSION}
	case "/v1/systems":
		return map[string]any{"ok": true, "systems": dicebotlist.AvailableGameIDs(true)}
	case "/v1/names":
		var l []map[string]any
		for _, id := range dicebotlist.AvailableGameIDs(true) {
			ctor, err := dicebotlist.Find(id)
			if err != nil {
				return map[string]any{"unavailable": id}
			}
			b := ctor()
			l = append(l, map[string]any{"system": b.GameID(), "name": b.GameName(), "sort_key": b.SortKey()})
		}
		// the basic system first, then by sort key
		sort.SliceStable(l[1:], func(i, j int) bool { return l[1+i]["sort_key"].(string) < l[1+j]["sort_key"].(string) })
		return map[string]any{"ok": true, "names": l}
	}
	return nil
}

// checkAnswer checks the answer to a request (want is nil unless it is documented).
func checkAnswer(name string, want map[string]any, code int, got []byte, ctype string) error {
	if want == nil {
		if code < 400 {
			return errf("%s: answered with status %d: %s", name, code, got)
		}
		if v, err := decodeJSON(got); err == nil {
			if o, is := v.(map[string]any); is {
				if o["ok"] == true || o["systems"] != nil || o["names"] != nil || o["api"] != nil {
					return errf("%s: status %d with the content %s", name, code, got)
				}
			}
		}
		return nil
	}
	if code != 200 {
		return errf("%s: status %d: %s", name, code, got)
	}
	if !strings.HasPrefix(ctype, "application/json") {
		return errf("%s: content type %q", name, ctype)
	}
	v, err := decodeJSON(got)
	if err != nil {
		return errf("%s: %v: %s", name, err, got)
	}
	if !reflect.DeepEqual(v, plainJSON(want)) {
		return errf("%s: answers %s, want %v", name, got, plainJSON(want))
	}
	return nil
}

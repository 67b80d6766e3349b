// Worker for P20: performs the scans that the monitor asks for through the Go package and reports
// everything the package returned. One JSON document per line on stdin and stdout; strings are hex.
package main

/*
#include <malloc.h>
static unsigned long long in_use(void) {
	struct mallinfo2 m = mallinfo2();
	return (unsigned long long)m.uordblks + (unsigned long long)m.hblkhd;
}
*/
import "C"

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"sync"

	sds "github.com/DataDog/dd-sensitive-data-scanner/sds-go/go"
)

// set at build time, so that a changed library is always linked again
var stamp string

type Kw struct {
	N   uint32   `json:"n"`
	Inc []string `json:"inc"`
	Exc []string `json:"exc"`
}
type Rule struct {
	Kind      string `json:"kind"`
	Id        string `json:"id"`
	Pattern   string `json:"pattern"`
	Value     string `json:"value"`
	Count     uint32 `json:"count"`
	Direction string `json:"direction"`
	Kw        *Kw    `json:"kw"`
	Validator string `json:"validator"`
}
type Event struct {
	Bytes *string         `json:"bytes"`
	Tree  json.RawMessage `json:"tree"`
}
type Request struct {
	Rules    []Rule  `json:"rules"`
	Events   []Event `json:"events"`
	Parallel bool    `json:"parallel"`
	Rounds   int     `json:"rounds"`
	Memory   int     `json:"memory"`
}
type Match struct {
	Rule  uint32 `json:"rule"`
	Path  string `json:"path"`
	Type  string `json:"type"`
	Start uint32 `json:"start"`
	End   uint32 `json:"end"`
	Shift int32  `json:"shift"`
}
type Result struct {
	Err     *string     `json:"err"`
	Panic   *string     `json:"panic"`
	Mutated bool        `json:"mutated"`
	Event   *string     `json:"event"`
	Tree    interface{} `json:"tree"`
	Matches []Match     `json:"matches"`
	Input   *string     `json:"input"`
}
type Response struct {
	Create  *string  `json:"create"`
	Kind    string   `json:"kind"`
	Panic   *string  `json:"panic"`
	Configs int      `json:"configs"`
	Results []Result `json:"results"`
	Growth  []int64  `json:"growth"`
}

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("worker: bad request")
	}
	return string(b)
}

// build makes the Go value of a tree: {"s": hex}, {"l": [...]}, {"m": [[hexkey, tree]...]}, {"x": name}
func build(raw json.RawMessage) interface{} {
	var t struct {
		S *string              `json:"s"`
		L *[]json.RawMessage   `json:"l"`
		M *[][]json.RawMessage `json:"m"`
		X *string              `json:"x"`
	}
	if err := json.Unmarshal(raw, &t); err != nil {
		panic("worker: " + err.Error())
	}
	switch {
	case t.S != nil:
		return unhex(*t.S)
	case t.L != nil:
		l := make([]interface{}, 0)
		for _, x := range *t.L {
			l = append(l, build(x))
		}
		return l
	case t.M != nil:
		m := map[string]interface{}{}
		for _, kv := range *t.M {
			var k string
			if err := json.Unmarshal(kv[0], &k); err != nil {
				panic("worker: " + err.Error())
			}
			m[unhex(k)] = build(kv[1])
		}
		return m
	}
	switch *t.X {
	case "nil":
		return nil
	case "int":
		return 12345678
	case "float":
		return 1.5
	case "bool":
		return true
	case "bytes":
		return []byte("secret 123456")
	case "strings":
		return []string{"secret 123456"}
	case "stringmap":
		return map[string]string{"k": "secret 123456"}
	}
	return struct{ A string }{"secret 123456"}
}

// show is the inverse of build (maps sorted by key).
func show(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		return map[string]interface{}{"s": hex.EncodeToString([]byte(v))}
	case []interface{}:
		l := make([]interface{}, 0)
		for _, x := range v {
			l = append(l, show(x))
		}
		return map[string]interface{}{"l": l}
	case map[string]interface{}:
		keys := make([]string, 0)
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		m := make([]interface{}, 0)
		for _, k := range keys {
			m = append(m, []interface{}{hex.EncodeToString([]byte(k)), show(v[k])})
		}
		return map[string]interface{}{"m": m}
	}
	return map[string]interface{}{"x": fmt.Sprintf("%T %v", v, v)}
}

func typeName(t sds.ReplacementType) string {
	switch t {
	case sds.ReplacementTypeNone:
		return "none"
	case sds.ReplacementTypePlaceholder:
		return "placeholder"
	case sds.ReplacementTypeHash:
		return "hash"
	case sds.ReplacementTypePartialStart:
		return "partial_beginning"
	case sds.ReplacementTypePartialEnd:
		return "partial_end"
	}
	return "unknown " + string(t)
}

func text(s string) *string { return &s }

func scan(s *sds.Scanner, e Event) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			res.Panic = text(fmt.Sprint(p))
		}
	}()
	var r sds.ScanResult
	var err error
	if e.Bytes != nil {
		input := []byte(unhex(*e.Bytes))
		keep := string(input)
		r, err = s.Scan(input)
		if string(input) != keep {
			res.Input = text(hex.EncodeToString(input))
		}
	} else {
		m := build(e.Tree).(map[string]interface{})
		r, err = s.ScanEventsMap(m)
		res.Tree = show(m)
	}
	if err != nil {
		res.Err = text(err.Error())
	}
	res.Mutated = r.Mutated
	if r.Event != nil {
		res.Event = text(hex.EncodeToString(r.Event))
	}
	for _, m := range r.Matches {
		res.Matches = append(res.Matches, Match{m.RuleIdx, hex.EncodeToString([]byte(m.Path)), typeName(m.ReplacementType), m.StartIndex, m.EndIndexExclusive, m.ShiftOffset})
	}
	return
}

func list(xs []string) []string {
	if xs == nil {
		return nil
	}
	out := []string{}
	for _, x := range xs {
		out = append(out, unhex(x))
	}
	return out
}

// memory repeats one use of the package many times and reports by how many bytes the native memory
// in use has grown after each repetition (creating, scanning and deleting a scanner).
func memory(q Request, configs []sds.RuleConfig, resp *Response) {
	start := int64(C.in_use())
	for i := 0; i < q.Memory; i++ {
		s, err := sds.CreateScanner(configs)
		if err == nil {
			for _, e := range q.Events {
				if r := scan(s, e); r.Panic != nil {
					resp.Panic = r.Panic
				}
			}
			s.Delete()
		} else {
			resp.Kind = "rejected"
		}
		resp.Growth = append(resp.Growth, int64(C.in_use())-start)
	}
}

func handle(q Request) (resp Response) {
	defer func() {
		if p := recover(); p != nil {
			resp.Panic = text(fmt.Sprint(p))
		}
	}()
	var configs []sds.RuleConfig
	for _, r := range q.Rules {
		var x sds.ExtraConfig
		if r.Kw != nil {
			x.ProximityKeywords = sds.CreateProximityKeywordsConfig(r.Kw.N, list(r.Kw.Inc), list(r.Kw.Exc))
		}
		switch r.Validator {
		case "LuhnChecksum":
			x.SecondaryValidator = sds.LuhnChecksum
		case "ChineseIdChecksum":
			x.SecondaryValidator = sds.ChineseIdChecksum
		default:
			x.SecondaryValidator = sds.SecondaryValidator(r.Validator)
		}
		direction := sds.PartialRedactionDirection(r.Direction)
		switch r.Direction {
		case "FirstCharacters":
			direction = sds.FirstCharacters
		case "LastCharacters":
			direction = sds.LastCharacters
		}
		id, pattern := unhex(r.Id), unhex(r.Pattern)
		switch r.Kind {
		case "match":
			configs = append(configs, sds.NewMatchingRule(id, pattern, x))
		case "redact":
			configs = append(configs, sds.NewRedactingRule(id, pattern, unhex(r.Value), x))
		case "hash":
			configs = append(configs, sds.NewHashRule(id, pattern, x))
		case "partial":
			configs = append(configs, sds.NewPartialRedactRule(id, pattern, r.Count, direction, x))
		}
	}
	if q.Memory > 0 {
		memory(q, configs, &resp)
		return
	}
	s, err := sds.CreateScanner(configs)
	if err != nil {
		resp.Create = text(err.Error())
		switch {
		case errors.Is(err, sds.ErrInvalidRegex):
			resp.Kind = "regex"
		case errors.Is(err, sds.ErrInvalidKeywords):
			resp.Kind = "keywords"
		case errors.Is(err, sds.ErrInvalidMatchAction):
			resp.Kind = "action"
		case errors.Is(err, sds.ErrUnknown):
			resp.Kind = "unknown"
		default:
			resp.Kind = "other"
		}
		if s != nil {
			resp.Panic = text("CreateScanner returned a scanner together with an error")
		}
		return
	}
	defer s.Delete()
	resp.Configs = len(s.RuleConfigs)
	n := len(q.Events)
	resp.Results = make([]Result, n)
	for round := 0; round < q.Rounds; round++ {
		out := make([]Result, n)
		if q.Parallel {
			var wg sync.WaitGroup
			for i := range q.Events {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					out[i] = scan(s, q.Events[i])
				}(i)
			}
			wg.Wait()
		} else {
			for i := range q.Events {
				out[i] = scan(s, q.Events[i])
			}
		}
		resp.Results = out
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q Request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "worker: bad request:", err)
			os.Exit(3)
		}
		b, err := json.Marshal(handle(q))
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"verif/kit"

	"github.com/kataras/neffos"
	"pgregory.net/rapid"
)

// ---- C01: codec ----

const escMarker = "@%!"

type c01Plan struct {
	// encode side
	NS, Room, Event []byte
	Body            []byte
	Kind            string // body, error, known, dynamic, reply, object
	ErrText         []byte
	Binary          bool
	Native          bool // IsNative on the message
	AllowNative     bool
	OnlyNative      bool
	Obj             c01Obj
	// decode side
	Raw []byte
}

type c01Obj struct {
	S string
	N int64
	B []byte
	M map[string]string
	C bool // custom marshaler
}

type c01Custom struct{ V c01Obj }

func (c *c01Custom) Marshal() ([]byte, error) {
	b, err := json.Marshal(c.V)
	return append([]byte("X;"), b...), err
}

func (c *c01Custom) Unmarshal(b []byte) error {
	if !bytes.HasPrefix(b, []byte("X;")) {
		return errors.New("no prefix")
	}
	return json.Unmarshal(b[2:], &c.V)
}

type dynErr struct{ last string }

func (d *dynErr) Error() string { return "dyn" }
func (d *dynErr) ResolveError(text string) bool {
	return strings.HasPrefix(text, "dyn<") && strings.HasSuffix(text, ">")
}

var (
	errKnownA = errors.New("known a")
	errKnownB = errors.New("known;b")
	errDyn    = &dynErr{}
)

func init() {
	neffos.RegisterKnownError(errKnownA)
	neffos.RegisterKnownError(errKnownB)
	neffos.RegisterKnownError(errKnownA)
	neffos.RegisterKnownError(errDyn)
}

// allKnown are the errors both sides know, in no order that matters.
var allKnown = []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, errKnownA, errKnownB}

func refResolve(text string) (known error) {
	if errDyn.ResolveError(text) || text == "dyn" {
		return errDyn
	}
	for _, e := range allKnown {
		if e.Error() == text {
			return e
		}
	}
	return nil
}

var fieldAtoms = []string{";", ";;", "a", "ns", "room", "0", "1", "$", "!", "#", "@%", "%!", "@", "semicolon", "é", "\x00", "\n", " ", "_OnNamespaceConnect", "_OnNativeMessage", "\xff\xfe", "neffos(0x", "日本"}

func genField(t *rapid.T, name string) []byte {
	var s string
	if rapid.IntRange(0, 4).Draw(t, name+"k") == 0 {
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, name))
	} else {
		s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(fieldAtoms), 0, 5).Draw(t, name), "")
	}
	for strings.Contains(s, escMarker) {
		s = strings.ReplaceAll(s, escMarker, "")
	}
	return []byte(s)
}

func genBytes(t *rapid.T, name string) []byte {
	switch rapid.IntRange(0, 5).Draw(t, name+"k") {
	case 0:
		return nil
	case 1:
		return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(append([]string{"@%!semicolon@%!", "@%!"}, fieldAtoms...)), 0, 8).Draw(t, name), ""))
	case 2:
		n := rapid.SampledFrom([]int{1, 125, 126, 127, 4095, 4096, 65535, 65536, 100000}).Draw(t, name+"n")
		b := rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, name)
		return bytes.Repeat(b, n/len(b)+1)[:n]
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, name)
	}
}

// genNearKnown makes an error text that resembles a known error's.
func genNearKnown(t *rapid.T) []byte {
	k := rapid.SampledFrom(append([]error{errDyn, errors.New("dyn<x>")}, allKnown...)).Draw(t, "nearof").Error()
	switch rapid.IntRange(0, 8).Draw(t, "nearhow") {
	case 0:
		return []byte(k + string(genField(t, "sfx")))
	case 1:
		return []byte(string(genField(t, "pfx")) + k)
	case 2:
		return []byte(k[:rapid.IntRange(0, len(k)-1).Draw(t, "cut")])
	case 3:
		return []byte(k[rapid.IntRange(1, len(k)).Draw(t, "from"):])
	case 4:
		return []byte(strings.ToUpper(k))
	case 5:
		return []byte(" " + k + "\n")
	case 6:
		return []byte(k + ": " + k)
	case 7:
		return []byte(refEscape([]byte(k)))
	default:
		i := rapid.IntRange(0, len(k)-1).Draw(t, "at")
		return []byte(k[:i] + "~" + k[i+1:])
	}
}

type c01Bad struct{ Text string }

func (c c01Bad) Marshal() ([]byte, error) { return []byte("ignored"), errors.New(c.Text) }
func (c *c01Bad) Unmarshal([]byte) error  { return errors.New(c.Text) }

func genC01(t *rapid.T) c01Plan {
	p := c01Plan{
		NS: genField(t, "ns"), Room: genField(t, "room"), Event: genField(t, "event"),
		Kind:        rapid.SampledFrom([]string{"body", "body", "error", "error", "known", "dynamic", "reply", "object", "raw", "raw"}).Draw(t, "kind"),
		Binary:      rapid.Bool().Draw(t, "binary"),
		AllowNative: rapid.Bool().Draw(t, "allownative"),
	}
	switch p.Kind {
	case "body", "reply":
		p.Body = genBytes(t, "body")
		if p.Kind == "body" && rapid.IntRange(0, 4).Draw(t, "nat") == 0 {
			p.Native = true
			p.OnlyNative = rapid.Bool().Draw(t, "onlynative")
		}
	case "error":
		if rapid.IntRange(0, 2).Draw(t, "near") == 0 {
			p.ErrText = genNearKnown(t)
		} else {
			p.ErrText = genBytes(t, "err")
		}
		if rapid.IntRange(0, 9).Draw(t, "withbody") == 0 {
			p.Body = genBytes(t, "body")
		}
	case "known":
		e := rapid.SampledFrom(allKnown).Draw(t, "knownerr")
		p.ErrText = []byte(e.Error())
	case "dynamic":
		p.ErrText = append(append([]byte("dyn<"), genField(t, "dyn")...), '>')
	case "object":
		p.Obj = c01Obj{S: rapid.String().Draw(t, "s"), N: rapid.Int64().Draw(t, "n"), B: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "b"),
			M: rapid.MapOfN(rapid.StringMatching(`[a-z;]{0,3}`), rapid.String(), 0, 3).Draw(t, "m"), C: rapid.Bool().Draw(t, "c")}
	case "raw":
		// something the decoder is fed directly
		switch rapid.IntRange(0, 3).Draw(t, "rawk") {
		case 0:
			p.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		case 1:
			n := rapid.IntRange(0, 9).Draw(t, "seps")
			var b []byte
			for i := 0; i <= n; i++ {
				if i > 0 {
					b = append(b, ';')
				}
				b = append(b, bytes.ReplaceAll(genField(t, "f"), []byte{';'}, nil)...)
			}
			p.Raw = b
		default:
			tok := rapid.SampledFrom([]string{"", "$17", "17", "1!7", "$!7", "#1", "neffos(0xabc)", "$", "!", "1!"}).Draw(t, "tok")
			flag := rapid.SampledFrom([]string{"0", "1", "", "2", "01"})
			f := func() string {
				return string(bytes.ReplaceAll(genField(t, "f"), []byte{';'}, []byte("@%!semicolon@%!")))
			}
			p.Raw = []byte(strings.Join([]string{tok, f(), f(), f(), flag.Draw(t, "e"), flag.Draw(t, "n"), string(genBytes(t, "b"))}, ";"))
		}
		p.OnlyNative = p.AllowNative && rapid.IntRange(0, 3).Draw(t, "only") == 0
	}
	return p
}

func refEscape(b []byte) string {
	return strings.ReplaceAll(string(b), ";", "@%!semicolon@%!")
}
func refUnescape(s string) string {
	return strings.ReplaceAll(s, "@%!semicolon@%!", ";")
}

func sameErr(got error, text string, isErr bool) string {
	if !isErr {
		if got != nil {
			return fmt.Sprintf("decoded error %q, want none", got)
		}
		return ""
	}
	if got == nil {
		return fmt.Sprintf("the error with text %q was lost", text)
	}
	if k := refResolve(text); k != nil {
		if got != k {
			return fmt.Sprintf("decoded error %#v (%q), want the known error %q itself", got, got, k)
		}
		return ""
	}
	if got.Error() != text {
		return fmt.Sprintf("decoded error text %q, want %q", got.Error(), text)
	}
	return ""
}

func execC01(_ *testing.T, p c01Plan) (res *kit.Result) {
	res = &kit.Result{}
	defer func() {
		if e := recover(); e != nil {
			res.Violatef("panic: %v", e)
		}
	}()
	res.Label(p.Kind)
	typ := neffos.MessageType(neffos.TextMessage)
	if p.Binary {
		typ = neffos.BinaryMessage
	}
	if p.Kind == "raw" {
		execC01Raw(res, p, typ)
		return
	}
	m := neffos.Message{Namespace: string(p.NS), Room: string(p.Room), Event: string(p.Event), Body: p.Body, SetBinary: p.Binary}
	isErr := false
	wantBody := p.Body
	switch p.Kind {
	case "error", "dynamic":
		m.Err = errors.New(string(p.ErrText))
		isErr = true
		wantBody = nil
	case "known":
		m.Err = refResolve(string(p.ErrText))
		isErr = true
		wantBody = nil
	case "reply":
		m.Body = nil
		m.Err = neffos.Reply(p.Body)
	case "object":
		if p.Obj.C {
			m.Body = neffos.Marshal(&c01Custom{p.Obj})
		} else {
			m.Body = neffos.Marshal(p.Obj)
		}
		wantBody = append([]byte(nil), m.Body...)
	}
	all := append(append(append([]byte(nil), p.NS...), p.Room...), p.Event...)
	if bytes.IndexByte(all, ';') >= 0 || bytes.IndexByte(wantBody, ';') >= 0 || isErr {
		res.NonTrivial = true
	}
	inBody := append([]byte(nil), m.Body...)
	if p.Native {
		m.IsNative = true
		wire := m.Serialize()
		res.NonTrivial = true
		if !bytes.Equal(wire, wantBody) {
			res.Violatef("native message's transport form is %q, want exactly the body %q", wire, wantBody)
		}
		return
	}
	wire := m.Serialize()
	if !bytes.Equal(m.Body, inBody) {
		res.Violatef("Serialize changed the message's body")
	}
	flag, tail := "0", wantBody
	if isErr {
		flag, tail = "1", []byte(m.Err.Error())
	}
	want := append([]byte(strings.Join([]string{"", refEscape(p.NS), refEscape(p.Room), refEscape(p.Event), flag, "0", ""}, ";")), tail...)
	if !bytes.Equal(wire, want) {
		res.Violatef("transport form %q differs from the documented one %q", clip(wire), clip(want))
		return
	}
	if p.Kind == "dynamic" {
		// what a remote side writes is the text of the concrete error
		want = append([]byte(strings.Join([]string{"", refEscape(p.NS), refEscape(p.Room), refEscape(p.Event), "1", "0", ""}, ";")), p.ErrText...)
		wire = want
	}
	keep := append([]byte(nil), wire...)
	d := neffos.DeserializeMessage(typ, wire, p.AllowNative, false)
	if !bytes.Equal(wire, keep) {
		res.Violatef("decoding changed its input")
	}
	if d.Namespace != string(p.NS) || d.Room != string(p.Room) || d.Event != string(p.Event) {
		res.Violatef("decoded (%q,%q,%q), sent (%q,%q,%q)", d.Namespace, d.Room, d.Event, p.NS, p.Room, p.Event)
	}
	if !bytes.Equal(d.Body, wantBody) {
		res.Violatef("decoded body %q, sent %q", clip(d.Body), clip(wantBody))
	}
	text := string(p.ErrText)
	if p.Kind == "known" {
		text = m.Err.Error()
	}
	if s := sameErr(d.Err, text, isErr); s != "" {
		res.Violatef("%s", s)
	}
	if d.SetBinary != p.Binary {
		res.Violatef("decoded SetBinary=%v, received as binary=%v", d.SetBinary, p.Binary)
	}
	if d.IsWait(true) || d.IsWait(false) {
		res.Violatef("an ordinary message decodes as one that waits for a reply")
	}
	if d.FromExplicit != "" || d.FromStackExchange || d.To != "" || d.IsForced || d.IsLocal {
		res.Violatef("decoding invented fields: %+v", d)
	}
	if wantNat := p.AllowNative && string(p.Event) == neffos.OnNativeMessage; d.IsNative != wantNat {
		res.Violatef("decoded IsNative=%v, want %v", d.IsNative, wantNat)
	}
	if p.Kind == "object" {
		res.NonTrivial = true
		bad := c01Bad{p.Obj.S}
		if got := neffos.Marshal(bad); string(got) != p.Obj.S {
			res.Violatef("Marshal of an object that fails with %q returned %q", p.Obj.S, got)
		}
		if err := d.Unmarshal(&bad); err == nil || err.Error() != p.Obj.S {
			res.Violatef("Unmarshal into an object that fails with %q returned %v", p.Obj.S, err)
		}
		var got c01Obj
		var err error
		if p.Obj.C {
			var c c01Custom
			err = d.Unmarshal(&c)
			got = c.V
		} else {
			err = d.Unmarshal(&got)
		}
		ref, _ := json.Marshal(p.Obj)
		var want c01Obj
		json.Unmarshal(ref, &want)
		if err != nil || !reflect.DeepEqual(got, want) {
			res.Violatef("object came back as %+v (%v), want %+v", got, err, want)
		}
	}
	return
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return append(append([]byte(nil), b[:300]...), "..."...)
	}
	return b
}

// execC01Raw compares the decoder with an independent one.
func execC01Raw(res *kit.Result, p c01Plan, typ neffos.MessageType) {
	d := neffos.DeserializeMessage(typ, append([]byte(nil), p.Raw...), p.AllowNative, p.OnlyNative)
	parts := bytes.SplitN(p.Raw, []byte(";"), 7)
	empty := func() bool {
		return d.Namespace == "" && d.Room == "" && len(d.Body) == 0 && d.Err == nil && d.FromExplicit == "" && !d.FromStackExchange && d.To == "" && !d.IsForced && !d.IsLocal && !d.IsWait(true) && !d.IsWait(false)
	}
	native := func() {
		if d.Event != neffos.OnNativeMessage || !d.IsNative || !bytes.Equal(d.Body, p.Raw) {
			res.Violatef("raw %q must be a native message of exactly these bytes, got %+v", clip(p.Raw), d)
		}
		d.Body = nil
		if !empty() {
			res.Violatef("native message with invented fields: %+v", d)
		}
	}
	switch {
	case len(p.Raw) == 0:
		if !empty() || d.Event != "" {
			res.Violatef("empty input decoded into %+v", d)
		}
	case p.OnlyNative:
		res.Label("raw-onlynative")
		res.NonTrivial = true
		native()
	case len(parts) < 7 && p.AllowNative:
		res.Label("raw-native")
		res.NonTrivial = true
		native()
	case len(parts) < 7:
		res.Label("raw-invalid")
		res.NonTrivial = bytes.IndexByte(p.Raw, ';') >= 0
		if !empty() || d.Event != "" || d.IsNative {
			res.Violatef("invalid input %q decoded into %+v", clip(p.Raw), d)
		}
	default:
		res.Label("raw-valid")
		res.NonTrivial = true
		if d.Namespace != refUnescape(string(parts[1])) || d.Room != refUnescape(string(parts[2])) || d.Event != refUnescape(string(parts[3])) {
			res.Violatef("%q decoded as (%q,%q,%q)", clip(p.Raw), d.Namespace, d.Room, d.Event)
		}
		isErr := string(parts[4]) == "1"
		body := parts[6]
		if isErr {
			body = nil
		}
		if !bytes.Equal(d.Body, body) {
			res.Violatef("%q decoded with body %q", clip(p.Raw), clip(d.Body))
		}
		if s := sameErr(d.Err, string(parts[6]), isErr); s != "" {
			res.Violatef("%q: %s", clip(p.Raw), s)
		}
		if d.SetBinary != p.Binary {
			res.Violatef("SetBinary=%v", d.SetBinary)
		}
		tok := string(parts[0])
		if strings.HasPrefix(tok, "neffos(0x") {
			if d.FromExplicit != tok || d.IsWait(true) || d.IsWait(false) {
				res.Violatef("sender mark %q decoded as FromExplicit=%q wait=%v", tok, d.FromExplicit, d.IsWait(true))
			}
		} else {
			if d.FromExplicit != "" {
				res.Violatef("token %q decoded as sender mark %q", tok, d.FromExplicit)
			}
			if d.IsWait(true) != (tok != "") {
				res.Violatef("token %q: client IsWait=%v", tok, d.IsWait(true))
			}
			if want := tok != "" && tok[0] != '$'; d.IsWait(false) != want {
				res.Violatef("token %q: server IsWait=%v", tok, d.IsWait(false))
			}
		}
	}
}

func TestC01(t *testing.T) { kit.Run(t, "C01", genC01, execC01) }

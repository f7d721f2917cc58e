#!/usr/bin/env python3
"""Writes the build overlays used by the checks. Nothing in /repo or in the tool chain is changed:
the go command is told (-overlay) to read the patched copies written under .build instead.

  rand   math/rand and math/rand/v2: every draw is asked of a hook if one is installed
  sign   pkg/bitcoin Key.Sign: the signature is asked of a hook if one is installed
  http   net/http Transport.RoundTrip: answered from the text in VERIF_HTTP
  sched  (overlay_sched.json, with --sched) a scheduling point before every statement of the repository
  serve  the command gets a file that runs main once per line of standard input if VERIF_SERVE is set
"""
import json, os, re, subprocess, sys

verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(verif, ".build", "overlay")
os.makedirs(out, exist_ok=True)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
pkgdir = subprocess.check_output(["go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}",
                                  "github.com/tokenized/pkg"], text=True, cwd="/repo").strip()

def write(name, text):
    p = os.path.join(out, name)
    old = None
    if os.path.exists(p):
        old = open(p).read()
    if old != text:
        open(p, "w").write(text)
    return p

def patch(path, subs):
    t = open(path).read()
    for a, b in subs:
        if t.count(a) != 1:
            sys.exit("mkoverlay: %r found %d times in %s" % (a, t.count(a), path))
        t = t.replace(a, b)
    return t

HOOK = """
// VerifChoose, if set, is asked for every draw. n is the size of the range (negative if drawn
// by a shuffle), or 0 for a draw over all 63 bit values.
var VerifChoose func(n int64) int64
"""
rand = goroot + "/src/math/rand/rand.go"
rand_t = patch(rand, [
    ("func (r *Rand) Int63() int64 { return r.src.Int63() }",
     "func (r *Rand) Int63() int64 {\n\tif VerifChoose != nil {\n\t\treturn VerifChoose(0)\n\t}\n\treturn r.src.Int63()\n}"),
    ("func (r *Rand) Uint64() uint64 {\n",
     "func (r *Rand) Uint64() uint64 {\n\tif VerifChoose != nil {\n\t\treturn uint64(VerifChoose(0)) << 1\n\t}\n"),
    ("func (r *Rand) Int63n(n int64) int64 {\n",
     "func (r *Rand) Int63n(n int64) int64 {\n\tif VerifChoose != nil && n > 0 {\n\t\treturn VerifChoose(n)\n\t}\n"),
    ("func (r *Rand) Int31n(n int32) int32 {\n",
     "func (r *Rand) Int31n(n int32) int32 {\n\tif VerifChoose != nil && n > 0 {\n\t\treturn int32(VerifChoose(int64(n)))\n\t}\n"),
    ("func (r *Rand) int31n(n int32) int32 {\n",
     "func (r *Rand) int31n(n int32) int32 {\n\tif VerifChoose != nil && n > 0 {\n\t\treturn int32(VerifChoose(-int64(n)))\n\t}\n"),
]) + HOOK
rand2 = goroot + "/src/math/rand/v2/rand.go"
rand2_t = patch(rand2, [
    ("func (r *Rand) uint64n(n uint64) uint64 {\n",
     "func (r *Rand) uint64n(n uint64) uint64 {\n\tif VerifChoose != nil && n > 0 {\n\t\treturn uint64(VerifChoose(int64(n)))\n\t}\n"),
    ("func (r *Rand) uint32n(n uint32) uint32 {\n",
     "func (r *Rand) uint32n(n uint32) uint32 {\n\tif VerifChoose != nil && n > 0 {\n\t\treturn uint32(VerifChoose(int64(n)))\n\t}\n"),
    ("func (runtimeSource) Uint64() uint64 {\n",
     "func (runtimeSource) Uint64() uint64 {\n\tif VerifChoose != nil {\n\t\treturn uint64(VerifChoose(0)) << 1\n\t}\n"),
]) + HOOK

key = pkgdir + "/bitcoin/key.go"
key_t = patch(key, [
    ("func (k Key) Sign(hash Hash32) (Signature, error) {\n",
     "func (k Key) Sign(hash Hash32) (Signature, error) {\n\tif VerifSign != nil {\n\t\treturn VerifSign(k, hash)\n\t}\n"),
    ("\tx, y := curveS256.ScalarBaseMult(k.value.Bytes())\n\treturn PublicKey{X: *x, Y: *y}\n",
     "\tif VerifPublicKey != nil {\n\t\treturn VerifPublicKey(k)\n\t}\n\treturn k.VerifMultiply()\n"),
]) + """
// VerifSign, if set, produces the signatures.
var VerifSign func(k Key, hash Hash32) (Signature, error)

// VerifPublicKey, if set, provides the public keys.
var VerifPublicKey func(k Key) PublicKey

// VerifMultiply calculates the public key.
func (k Key) VerifMultiply() PublicKey {
	x, y := curveS256.ScalarBaseMult(k.value.Bytes())
	return PublicKey{X: *x, Y: *y}
}
"""

rt = goroot + "/src/net/http/roundtrip.go"
rt_t = patch(rt, [
    ("\treturn t.roundTrip(req)\n",
     "\tif res, err, ok := verifRoundTrip(req); ok {\n\t\treturn res, err\n\t}\n\treturn t.roundTrip(req)\n"),
])
VRT = '''package http

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strconv"
	"strings"
)

type verifBody struct {
	io.Reader
	fail bool
}

func (b *verifBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.fail {
		return n, errors.New("verif: connection reset")
	}
	return n, err
}

func (b *verifBody) Close() error { return nil }

// verifRoundTrip answers from VERIF_HTTP. Each line is METHOD URL STATUS KIND BODY with KIND one of
// ok, reset (fails while reading the body) and refuse (no response at all) and BODY quoted. A request
// that matches no line gets status 404. Every request is reported on standard output.
func verifRoundTrip(req *Request) (*Response, error, bool) {
	text := os.Getenv("VERIF_HTTP")
	if text == "" {
		return nil, nil, false
	}
	os.Stdout.Write([]byte("verif-request " + req.Method + " " + req.URL.String() + "\\n"))
	status, kind, body := 404, "ok", "not found"
	for _, line := range strings.Split(text, "\\n") {
		p := strings.SplitN(line, " ", 5)
		if len(p) == 5 && p[0] == req.Method && p[1] == req.URL.String() {
			status, _ = strconv.Atoi(p[2])
			kind = p[3]
			body, _ = strconv.Unquote(p[4])
			break
		}
	}
	if kind == "refuse" {
		return nil, errors.New("verif: connection refused"), true
	}
	return &Response{
		Status: strconv.Itoa(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: Header{}, Body: &verifBody{Reader: bytes.NewReader([]byte(body)), fail: kind == "reset"},
		ContentLength: -1, Request: req,
	}, nil, true
}
'''
SERVE = '''package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
)

func init() {
	if os.Getenv("VERIF_SERVE") == "" {
		return
	}
	r := bufio.NewScanner(os.Stdin)
	r.Buffer(nil, 1<<26)
	for r.Scan() {
		var q struct {
			Args []string
			Env  map[string]string
		}
		if err := json.Unmarshal(r.Bytes(), &q); err != nil {
			os.Exit(70)
		}
		os.Clearenv()
		for k, v := range q.Env {
			os.Setenv(k, v)
		}
		os.Args = append([]string{"tool"}, q.Args...)
		main()
		fmt.Fprintln(os.Stdout, "verif-end")
	}
	os.Exit(0)
}
'''
base = {
    rand: write("rand.go", rand_t),
    rand2: write("rand2.go", rand2_t),
}

# Files of cached modules cannot be overlaid, so the harness is built against a module cache that is
# a tree of links to the real one with a patched copy of the key library.
modcache = subprocess.check_output(["go", "env", "GOMODCACHE"], text=True).strip()
mine = os.path.join(verif, ".build", "modcache")

def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)

def mirror(rel):
    """Links everything in modcache/rel except the path leading to the key library."""
    here = os.path.join(mine, rel)
    os.makedirs(here, exist_ok=True)
    for name in os.listdir(os.path.join(modcache, rel)):
        src = os.path.join(modcache, rel, name)
        if src == pkgdir:
            continue
        if pkgdir.startswith(src + os.sep):
            mirror(os.path.join(rel, name))
        else:
            link(src, os.path.join(here, name))

mirror("")
for d, _, files in os.walk(pkgdir):
    rel = os.path.relpath(d, modcache)
    for f in files:
        src = os.path.join(d, f)
        dst = os.path.join(mine, rel, f)
        data = key_t.encode() if src == key else open(src, "rb").read()
        if not os.path.exists(dst) or open(dst, "rb").read() != data:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst, "wb").write(data)

# The harness is compiled as a package of the repository's own module.
for f in sorted(os.listdir(os.path.join(verif, "mc"))):
    if f.endswith(".go"):
        base["/repo/zz_verifmc/" + f] = os.path.join(verif, "mc", f)

POINT = """package %s

// VerifPoint, if set, is called at every scheduling point.
var VerifPoint func()

func verifPoint() {
	if VerifPoint != nil {
		VerifPoint()
	}
}
"""
base["/repo/zz_verif_point.go"] = write("point.go", POINT % "txbuilder")
base["/repo/fees/zz_verif_point.go"] = write("point_fees.go", POINT % "fees")

http = {
    rt: write("roundtrip.go", rt_t),
    os.path.join(os.path.dirname(rt), "verif_roundtrip.go"): write("verif_roundtrip.go", VRT),
    "/repo/cmd/zz_verif_serve.go": write("verif_serve.go", SERVE),
}
open(os.path.join(verif, ".build", "overlay.json"), "w").write(json.dumps({"Replace": base}, indent=1))
open(os.path.join(verif, ".build", "overlay_http.json"), "w").write(json.dumps({"Replace": http}, indent=1))

if "--sched" in sys.argv:
    files = []
    for d in ["/repo", "/repo/fees"]:
        names = json.loads(subprocess.check_output(["go", "list", "-mod=readonly", "-json=GoFiles", "."], text=True, cwd=d))["GoFiles"]
        files += [os.path.join(d, n) for n in names]
    sd = os.path.join(verif, ".build", "sched")
    os.makedirs(sd, exist_ok=True)
    lines = subprocess.check_output(["go", "run", os.path.join(verif, "tools/instrument/main.go"), sd] + files, text=True, cwd=sd,
                                    env=dict(os.environ, GOFLAGS="", GO111MODULE="off")).split("\n")
    both = dict(base)
    for l in lines:
        if l:
            both[l.split()[0]] = l.split()[1]
    open(os.path.join(verif, ".build", "overlay_sched.json"), "w").write(json.dumps({"Replace": both}, indent=1))

package main

import (
	"archive/tar"
	"bytes"
	crand "crypto/rand"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

// choppy hands out entropy in pieces, as a reader may.
type choppy struct {
	r   io.Reader
	rng *Rng
	max int
}

func (c *choppy) Read(p []byte) (int, error) {
	if n := 1 + c.rng.Intn(c.max); len(p) > n {
		p = p[:n]
	}
	return c.r.Read(p)
}

var passwords = []string{"", "a", "A", " ", "hunter2", "pässwörd", "пароль", "日本語", "😀", "a b", "a'b\"c", "\\", "$HOME", "%s%d", "-", "0", "\n", "pass\nword", "pass\tword", "cafe\u0301", "café", "\xff\xfe\x00x", "null\x00inside", "stfs", "STFS"}

func genPassword(r *Rng) string {
	switch r.Weighted([]int{2, 10, 3, 3}) {
	case 0:
		return ""
	case 1:
		return r.Pick(passwords)
	case 2:
		var b strings.Builder
		for n := r.Range(1, 24); n > 0; n-- {
			b.WriteRune([]rune("abcXYZ019 .,;ßøñЖ漢字🎉")[r.Intn(20)])
		}
		return b.String()
	}
	return strings.Repeat(r.Pick([]string{"x", "ab", "é", "long passphrase "}), r.PickInt([]int{7, 31, 32, 33, 63, 64, 65, 100, 300}))
}

// otherPasswords are passwords one might mistake for the right one.
func otherPasswords(r *Rng, right string) []string {
	var out []string
	add := func(s string) {
		// the key derivations pad short passwords with zero bytes and hash
		// long ones: such passwords are the same password
		if strings.TrimRight(s, "\x00") == strings.TrimRight(right, "\x00") {
			return
		}
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	add("")
	add(right + " ")
	add(right + "\n")
	add(" " + right)
	add(strings.ToUpper(right))
	add(strings.ToLower(right))
	if len(right) > 1 {
		add(right[:len(right)-1])
		add(right[1:])
		add(right[:len(right)/2])
	}
	if rs := []rune(right); len(rs) > 0 {
		add(string(rs[:len(rs)-1]))
		rs[r.Intn(len(rs))]++
		add(string(rs))
	}
	add(right + right)
	add(genPassword(r))
	add(genPassword(r))
	add("password")
	for i := len(out) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func init() {
	register(&propDef{
		id: "C18", level: "exploration", quick: 6000,
		rule:   "Key pairs of every format are generated from seeded entropy (handed out in one piece or piecemeal) at seeded simulated instants, under empty, ASCII, non-ASCII, binary and long passwords; both halves are parsed, used against each other and against a second pair's halves on raw data, headers and a whole filesystem with rebuild, again after the clock has jumped by up to 30 years; the private half is parsed with a dozen near-miss passwords.",
		stub:   []string{"scrypt's cost parameter is capped (same derivation, fewer rounds)"},
		assume: []string{"a reader of entropy that fails is fatal in the Go runtime and not injected", "passwords which differ only in trailing zero bytes are the same for the key derivations"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{X: map[string]int64{}, S: map[string]string{}}
			cs.Cfg = Cfg{Comp: r.Pick(compKeys), Level: config.CompressionLevelBalancedKey, RS: r.PickInt([]int{1, 20}), WC: config.WriteCacheTypeMemory}
			if i%2 == 0 {
				cs.Cfg.Enc = r.Pick(encKeysL[1:])
			} else {
				cs.Cfg.Sig = r.Pick(sigKeysL[1:])
			}
			p := genPassword(r)
			q := p
			if r.P(0.5) {
				q = genPassword(r)
			}
			cs.L = append([]string{hexs(p), hexs(q)})
			for _, o := range otherPasswords(r, p) {
				cs.L = append(cs.L, hexs(o))
			}
			if !th && len(cs.L) > 9 {
				cs.L = cs.L[:9]
			}
			cs.X["jump0"] = int64(r.PickInt([]int{0, 1, 3600, 86400 * 365, 86400 * 3650, 86400 * 365 * 25}))
			cs.X["jump1"] = int64(r.PickInt([]int{0, 1, 3600, 86400 * 31, 86400 * 366, 86400 * 365 * 3, 86400 * 365 * 30}))
			cs.X["chop"] = int64(r.PickInt([]int{0, 0, 1, 3, 31}))
			cs.X["size"] = int64(r.PickInt([]int{0, 1, 31, 512, 5000, 70000}))
			cs.X["fs"] = int64(btoi(r.P(0.5)))
			return cs
		},
		exec: execKeys,
	})
}

func hexs(s string) string { return fmt.Sprintf("%x", s) }
func unhexs(s string) string {
	var b []byte
	_, err := fmt.Sscanf(s, "%x", &b)
	if err != nil && s != "" {
		must(err)
	}
	return string(b)
}

type pair struct {
	priv, pub []byte
	id, rcpt  interface{}
	pw        string
}

func execKeys(w *World, cs *Case) {
	c := cs.Cfg
	enc := c.Enc != ""
	format := c.Enc + c.Sig
	w.class("%s enc:%v", format, enc)
	w.advance(time.Duration(cs.x("jump0", 0)) * time.Second)
	rng := NewRng(cs.Seed ^ 0x6e75)
	if n := int(cs.x("chop", 0)); n > 0 {
		old := crand.Reader
		crand.Reader = &choppy{r: old, rng: rng, max: n}
		defer func() { crand.Reader = old }()
		w.count("fault:entropy handed out piecemeal")
	}
	parseID := func(p *pair, pw string) (id interface{}, err error) {
		err = w.api(keySys, w.opLabel, func() (err error) {
			if enc {
				id, err = keys.ParseIdentity(format, p.priv, pw)
			} else {
				id, err = keys.ParseSignerIdentity(format, p.priv, pw)
			}
			return
		})
		return
	}
	parse := func(p *pair) {
		w.opLabel = fmt.Sprintf("parsing a %s private key with its password %q", format, p.pw)
		var err error
		if p.id, err = parseID(p, p.pw); err != nil {
			w.fail("parse", "%s fails: %v", w.opLabel, err)
		}
		w.opLabel = fmt.Sprintf("parsing a %s public key", format)
		err = w.api(keySys, w.opLabel, func() (err error) {
			if enc {
				p.rcpt, err = keys.ParseRecipient(format, p.pub)
			} else {
				p.rcpt, err = keys.ParseSignerRecipient(format, p.pub)
			}
			return
		})
		if err != nil {
			w.fail("parse", "%s fails: %v", w.opLabel, err)
		}
	}
	gen := func(pw string) *pair {
		p := &pair{pw: pw}
		w.opLabel = fmt.Sprintf("generating a %s key pair with password %q", format, pw)
		err := w.api(keySys, w.opLabel, func() (err error) {
			p.priv, p.pub, err = utility.Keygen(config.PipeConfig{Encryption: c.Enc, Signature: c.Sig}, config.PasswordConfig{Password: pw})
			return
		})
		if err != nil {
			w.fail("keygen", "%s fails: %v", w.opLabel, err)
		}
		parse(p)
		return p
	}
	if len(cs.L) < 1 {
		return
	}
	pwA, pwB := unhexs(cs.L[0]), unhexs(cs.L[min(1, len(cs.L)-1)])
	a, b := gen(pwA), gen(pwB)
	if bytes.Equal(a.priv, b.priv) || bytes.Equal(a.pub, b.pub) {
		w.fail("same", "two freshly generated %s pairs are the same", format)
	}
	wrong := func(when string) {
		for _, h := range cs.L[min(2, len(cs.L)):] {
			pw := unhexs(h)
			w.opLabel = fmt.Sprintf("parsing a %s private key generated with password %q with %q%s", format, a.pw, pw, when)
			if _, err := parseID(a, pw); err == nil {
				w.fail("wrong-password", "%s succeeds", w.opLabel)
			}
			w.class("%s wrong password, right one empty:%v, wrong one empty:%v", format, a.pw == "", pw == "")
			w.count("fault:wrong password")
		}
	}
	wrong("")
	data := genData(rng, int(cs.x("size", 100))).Bytes()
	use := func(when string) {
		for _, s := range []struct {
			from, to *pair
			ok       bool
		}{{a, a, true}, {b, b, true}, {a, b, false}, {b, a, false}} {
			who := fmt.Sprintf("%s pair%s", format, when)
			if !s.ok {
				who = fmt.Sprintf("another %s pair%s", format, when)
				w.count("fault:other pair")
			}
			if enc {
				w.useEnc(format, who, s.from, s.to, s.ok, data)
			} else {
				w.useSig(format, who, s.from, s.to, s.ok, data)
			}
		}
	}
	use("")
	if cs.x("fs", 0) == 1 {
		w.useFS(cs, a, b, data)
	}
	if j := cs.x("jump1", 0); j > 0 {
		w.advance(time.Duration(j) * time.Second)
		w.count("fault:clock jump")
		when := fmt.Sprintf(" %s later", time.Duration(j)*time.Second)
		use(when)
		parse(a)
		parse(b)
		use(when + ", parsed again")
	}
	w.state(fmt.Sprint(format, len(pwA), len(pwB), len(data)))
	w.logf("%s %d", format, len(data))
}

func (w *World) useEnc(format, who string, from, to *pair, ok bool, data []byte) {
	w.opLabel = "encrypting"
	var buf bytes.Buffer
	var str string
	hdr := &tar.Header{Name: "/some/näme", Size: 7, Mode: 0o644, Uname: "u", PAXRecords: map[string]string{"X.y": "z"}}
	err := w.api(keySys, w.opLabel, func() error {
		wr, err := encryption.Encrypt(&buf, format, from.rcpt)
		if err != nil {
			return err
		}
		if _, err := wr.Write(data); err != nil {
			return err
		}
		if err := wr.Close(); err != nil {
			return err
		}
		if str, err = encryption.EncryptString(string(data), format, from.rcpt); err != nil {
			return err
		}
		return encryption.EncryptHeader(hdr, format, from.rcpt)
	})
	if err != nil {
		w.fail("encrypt", "encrypting with the public half of a %s fails: %v", who, err)
	}
	check := func(what string, got []byte, err error, want []byte) {
		if ok && (err != nil || !bytes.Equal(got, want)) {
			w.fail("decrypt", "%s encrypted with the public half is not decrypted by the private half of the same %s: %v, %s", what, who, err, diffBytes(got, want))
		}
		if !ok && err == nil {
			w.fail("other-pair", "%s encrypted with the public half of one pair is decrypted by %s", what, who)
		}
	}
	w.opLabel = "decrypting with " + who
	var got []byte
	err = w.api(keySys, w.opLabel, func() error {
		r, err := encryption.Decrypt(&buf, format, to.id)
		if err != nil {
			return err
		}
		got, err = io.ReadAll(r)
		return err
	})
	check("data", got, err, data)
	var s string
	err = w.api(keySys, w.opLabel, func() (err error) { s, err = encryption.DecryptString(str, format, to.id); return })
	check("a string", []byte(s), err, data)
	err = w.api(keySys, w.opLabel, func() error { return encryption.DecryptHeader(hdr, format, to.id) })
	check("a header", []byte(hdr.Name), err, []byte("/some/näme"))
}

func (w *World) useSig(format, who string, from, to *pair, ok bool, data []byte) {
	w.opLabel = "signing"
	var sig, ssig string
	hdr := &tar.Header{Name: "/some/näme", Size: 7, Mode: 0o644, Uname: "u", PAXRecords: map[string]string{"X.y": "z"}}
	err := w.api(keySys, w.opLabel, func() error {
		r, sign, err := signature.Sign(bytes.NewReader(data), true, format, from.id)
		if err != nil {
			return err
		}
		if _, err := io.Copy(io.Discard, r); err != nil {
			return err
		}
		if sig, err = sign(); err != nil {
			return err
		}
		if ssig, err = signature.SignString(string(data), true, format, from.id); err != nil {
			return err
		}
		return signature.SignHeader(hdr, true, format, from.id)
	})
	if err != nil {
		w.fail("sign", "signing with the private half of a %s fails: %v", who, err)
	}
	check := func(what string, err error) {
		if ok && err != nil {
			w.fail("verify", "%s signed with the private half is not verified by the public half of the same %s: %v", what, who, err)
		}
		if !ok && err == nil {
			w.fail("other-pair", "%s signed with the private half of one pair is verified by %s", what, who)
		}
	}
	w.opLabel = "verifying with " + who
	verify := func(sig string, data []byte) error {
		return w.api(keySys, w.opLabel, func() error {
			r, verify, err := signature.Verify(bytes.NewReader(data), true, format, to.rcpt, sig)
			if err != nil {
				return err
			}
			if _, err := io.Copy(io.Discard, r); err != nil {
				return err
			}
			return verify()
		})
	}
	check("data", verify(sig, data))
	check("a string", w.api(keySys, w.opLabel, func() error {
		return signature.VerifyString(string(data), true, format, to.rcpt, ssig)
	}))
	err = w.api(keySys, w.opLabel, func() error { return signature.VerifyHeader(hdr, true, format, to.rcpt) })
	check("a header", err)
	if ok && hdr.Name != "/some/näme" {
		w.fail("verify", "a verified header has the name %q", hdr.Name)
	}
	if ok {
		if err := verify(sig, append(append([]byte(nil), data...), 'x')); err == nil {
			w.fail("verify", "the signature of other data is accepted by %s", who)
		}
	}
}

// useFS runs a filesystem on the keys.
func (w *World) useFS(cs *Case, a, b *pair, data []byte) {
	withKeys := func(p *pair) *Sys {
		tp := w.path("keys.tar")
		y, err := w.newSys(cs.Cfg, tp, filepath.Join(filepath.Dir(tp), "keys.sqlite"))
		must(err)
		if cs.Cfg.Enc != "" {
			y.readCr.Identity, y.writeCr.Recipient = p.id, p.rcpt
		} else {
			y.readCr.Recipient, y.writeCr.Identity = p.rcpt, p.id
		}
		ev := func(*config.HeaderEvent) {}
		y.readOps = operations.NewOperations(y.back, y.meta, y.pipes, y.readCr, ev)
		y.writeOps = operations.NewOperations(y.back, y.meta, y.pipes, y.writeCr, ev)
		y.mkfs()
		return y
	}
	y := withKeys(a)
	w.opLabel = "a filesystem with freshly generated keys"
	err := w.api(y, w.opLabel, func() error {
		if _, err := y.fs.Initialize("/", os.ModePerm); err != nil {
			return err
		}
		f, err := y.fs.Create("/f")
		if err != nil {
			return err
		}
		if _, err := f.Write(data); err != nil {
			return err
		}
		return f.Close()
	})
	if err != nil {
		w.fail("filesystem", "%s cannot be written: %v", w.opLabel, err)
	}
	got, err := w.readAll(y, "/f")
	if err != nil || !bytes.Equal(got, data) {
		w.fail("filesystem", "%s does not return what was written: %v, %s", w.opLabel, err, diffBytes(got, data))
	}
	z := withKeys(a)
	copyFile(y.tape, z.tape)
	if err := w.api(z, "rebuild", func() error { return z.index(0, 0, true, 0, nil) }); err != nil {
		w.fail("filesystem", "rebuilding with the same keys fails: %v", err)
	}
	got, err = w.readAll(z, "/f")
	if err != nil || !bytes.Equal(got, data) {
		w.fail("filesystem", "after a rebuild with the same keys reading fails: %v, %s", err, diffBytes(got, data))
	}
	x := withKeys(b)
	copyFile(y.tape, x.tape)
	if err := w.api(x, "rebuild with another pair", func() error { return x.index(0, 0, true, 0, nil) }); err == nil {
		w.fail("other-pair", "rebuilding with another pair succeeds")
	}
	copyFile(y.db, x.db)
	if len(data) > 0 {
		if _, err := w.readAll(x, "/f"); err == nil {
			w.fail("other-pair", "reading content with another pair succeeds")
		}
	}
	w.count("filesystems run on generated keys")
	w.drop(z)
	w.drop(x)
}

var keySys = &Sys{seam: &Seam{}}

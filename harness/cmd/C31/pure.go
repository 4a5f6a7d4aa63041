package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/secp256k1zkp"

	"github.com/yoss22/bulletproofs"

	"verif/conv"
	"verif/memstore"
	"verif/psim"
	"verif/realchain"
	"verif/ref"
	"verif/vsched"
)

// things are objects that two users share.
type things struct {
	raw     []byte
	block   *consensus.Block
	compact *consensus.CompactBlock
	tx      *consensus.Transaction
	list    consensus.BlockList
	locator *consensus.Locator
	proof   *consensus.Proof
	graph   *cuckoo.Cuckaroo
	graph2  *cuckoo.Cuckoo
	key     *big.Int
	pub     bulletproofs.Point
	sig     secp256k1zkp.Signature
	addrs   *p2p.PeerAddrs
	headers *p2p.BlockHeaders
	header  *p2p.BlockHeader
	request *p2p.GetBlock
	hashes  *p2p.GetBlockHeaders
	fail    *p2p.PeerError
	ping    *p2p.Ping
	ask     *p2p.GetPeerAddrs
}

var sharedKey = new(big.Int).SetBytes(bytes.Repeat([]byte{7}, 32))

func make1(raw []byte, stored []*consensus.Block) *things {
	t := &things{raw: raw, block: new(consensus.Block)}
	read := func(m interface{ Read(io.Reader) error }, b []byte) {
		if err := m.Read(bytes.NewReader(b)); err != nil {
			panic(err)
		}
	}
	read(t.block, raw)
	ins := body(3).Inputs
	t.block.Inputs = nil
	ko := func(i byte) ref.Kernel {
		_, k := memstore.Body()
		k.Fee = uint64(i)
		return k
	}
	_, _, ker := conv.Lists(nil, nil, []ref.Kernel{ko(3), ko(2), ko(1)})
	out := append(consensus.OutputList(nil), t.block.Outputs...)
	t.compact = &consensus.CompactBlock{Header: t.block.Header, Outputs: out, Kernels: ker,
		KernelIDs: consensus.ShortIDList{{3, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 1}, {1, 1, 1, 1, 1, 1}}}
	t.tx = &consensus.Transaction{Inputs: ins, Outputs: out, Kernels: ker}
	for i := len(stored) - 1; i >= 0; i-- {
		t.list = append(t.list, *stored[i])
	}
	t.locator = &consensus.Locator{Hashes: []consensus.Hash{hash(2), hash(1)}}
	t.proof = &t.block.Header.POW
	t.graph = cuckoo.NewCuckaroo(hash(4))
	t.graph2 = cuckoo.New(hash(4), 20)
	t.key = new(big.Int).Set(sharedKey)
	t.pub = *bulletproofs.ScalarMulPoint(&secp256k1zkp.G, t.key)
	t.sig = secp256k1zkp.DecodeSignature(ref.Sign(sharedKey, [32]byte{1}, big.NewInt(12345)))
	t.addrs = new(p2p.PeerAddrs)
	read(t.addrs, psim.Addrs(C, D)[11:])
	t.headers = new(p2p.BlockHeaders)
	read(t.headers, hdrs(5, 6)[11:])
	t.header = new(p2p.BlockHeader)
	read(t.header, hdrs(22)[13:])
	t.request = new(p2p.GetBlock)
	t.request.Hash = hash(3)
	t.hashes = new(p2p.GetBlockHeaders)
	read(t.hashes, psim.GetHeaders(hash(1), hash(2))[11:])
	t.fail = new(p2p.PeerError)
	read(t.fail, append([]byte{0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 3}, "abc"...))
	t.ping = new(p2p.Ping)
	read(t.ping, psim.Ping(3, 4)[11:])
	t.ask = new(p2p.GetPeerAddrs)
	read(t.ask, []byte{0, 0, 0, 7})
	return t
}

type call struct {
	name string
	f    func(t *things) string
}

func hex(b []byte) string { return fmt.Sprintf("%x", b) }

var msg1 = [32]byte{1}

// quiet ignores a text, which may have addresses.
func quiet(string) string { return "" }

var calls = []call{
	{"block bytes", func(t *things) string { return hex(t.block.Bytes()) }},
	{"block hash", func(t *things) string { return hex(t.block.Hash()) }},
	{"block valid", func(t *things) string { return fmt.Sprint(t.block.Validate() == nil) }},
	{"block string", func(t *things) string { return quiet(t.block.String()) }},
	{"block read", func(t *things) string {
		var b consensus.Block
		return fmt.Sprint(b.Read(bytes.NewReader(t.raw)), hex(b.Bytes()))
	}},
	{"header bytes", func(t *things) string { return hex(t.block.Header.Bytes()) }},
	{"header hash", func(t *things) string { return hex(t.block.Header.Hash()) }},
	{"header valid", func(t *things) string { return fmt.Sprint(t.block.Header.Validate() == nil) }},
	{"header string", func(t *things) string { return quiet(t.block.Header.String()) }},
	{"header read", func(t *things) string {
		var h consensus.BlockHeader
		return fmt.Sprint(h.Read(bytes.NewReader(t.raw)), hex(h.Bytes()))
	}},
	{"compact bytes", func(t *things) string { return hex(t.compact.Bytes()) }},
	{"compact string", func(t *things) string { return quiet(t.compact.String()) + hex(t.compact.Hash()) }},
	{"tx bytes", func(t *things) string { return hex(t.tx.Bytes()) }},
	{"tx string", func(t *things) string { return quiet(t.tx.String()) }},
	{"tx read", func(t *things) string {
		var x consensus.Transaction
		return fmt.Sprint(x.Read(bytes.NewReader(tx(4))), hex(x.Bytes()))
	}},
	{"output", func(t *things) string {
		o := &t.block.Outputs[0]
		return hex(o.Bytes()) + hex(o.Hash()) + quiet(o.String()) + hex(o.BytesWithoutProof()) + fmt.Sprint(o.Validate() == nil)
	}},
	{"kernel", func(t *things) string {
		k := &t.block.Kernels[0]
		return hex(k.Bytes()) + hex(k.Hash()) + quiet(k.String()) + fmt.Sprint(k.Validate() == nil)
	}},
	{"input", func(t *things) string {
		i := &t.tx.Inputs[0]
		return hex(i.Bytes()) + hex(i.Hash())
	}},
	{"short id", func(t *things) string { return t.locator.Hashes[0].ShortID(t.locator.Hashes[1]).String() }},
	{"locator", func(t *things) string {
		var l consensus.Locator
		return hex(t.locator.Bytes()) + fmt.Sprint(l.Read(bytes.NewReader(t.locator.Bytes())), t.locator.Hashes[0])
	}},
	{"next", func(t *things) string { return fmt.Sprint(consensus.NextDifficulty(t.list)) }},
	{"proof", func(t *things) string {
		return hex(t.proof.Bytes()) + hex(t.proof.Hash()) + hex(t.proof.ProofBytes()) + fmt.Sprint(t.proof.ToDifficulty())
	}},
	{"proof valid", func(t *things) string { return fmt.Sprint(t.proof.Validate(&t.block.Header, 29) == nil) }},
	{"new proof", func(t *things) string {
		p := consensus.NewProof(t.block.Header.POW.Nonces)
		return hex(p.Bytes())
	}},
	{"graph", func(t *things) string { return fmt.Sprint(t.graph.Verify(t.block.Header.POW.Nonces, 29)) }},
	{"graph 2", func(t *things) string { return fmt.Sprint(t.graph2.Verify(t.block.Header.POW.Nonces, 20)) }},
	{"new graph", func(t *things) string {
		return fmt.Sprint(cuckoo.NewCuckaroo(t.raw[:32]).Verify(t.block.Header.POW.Nonces, 29), cuckoo.New(t.raw[:32], 20).Verify(t.block.Header.POW.Nonces, 20))
	}},
	{"verify", func(t *things) string { return fmt.Sprint(secp256k1zkp.VerifySignature(t.pub, msg1, t.sig)) }},
	{"sign", func(t *things) string {
		return fmt.Sprint(secp256k1zkp.VerifySignature(t.pub, msg1, secp256k1zkp.SignMessage(t.pub, *t.key, msg1)))
	}},
	{"signature", func(t *things) string {
		b := t.sig.Bytes()
		s := secp256k1zkp.DecodeSignature(b)
		return hex(b[:]) + quiet(fmt.Sprint(s))
	}},
	{"commit", func(t *things) string {
		b := secp256k1zkp.CompressPubkey(*secp256k1zkp.CommitValue(t.key, t.key))
		return hex(b[:])
	}},
	{"message", func(t *things) string {
		m := secp256k1zkp.ComputeMessage(4, 5)
		h := secp256k1zkp.ComputeHash(t.raw)
		return hex(m[:]) + hex(h[:])
	}},
	{"random", func(t *things) string { return fmt.Sprint(secp256k1zkp.RandomInt().Sign()) }},
	{"addrs", func(t *things) string { return hex(t.addrs.Bytes()) + quiet(t.addrs.String()) }},
	{"headers", func(t *things) string { return hex(t.headers.Bytes()) + quiet(t.headers.String()) }},
	{"a header", func(t *things) string { return hex(t.header.Bytes()) + quiet(t.header.String()) }},
	{"request", func(t *things) string { return hex(t.request.Bytes()) + quiet(t.request.String()) }},
	{"hashes", func(t *things) string { return hex(t.hashes.Bytes()) + quiet(t.hashes.String()) }},
	{"error", func(t *things) string { return hex(t.fail.Bytes()) + quiet(t.fail.String()) }},
	{"ping", func(t *things) string { return hex(t.ping.Bytes()) + quiet(t.ping.String()) }},
	{"ask", func(t *things) string { return hex(t.ask.Bytes()) + quiet(t.ask.String()) }},
	{"frames", func(t *things) string {
		var b bytes.Buffer
		n, err := p2p.WriteMessage(&b, t.ping)
		s := hex(b.Bytes())
		m, err2 := p2p.ReadMessage(&b, new(p2p.Ping))
		return fmt.Sprint(n, err, m, err2, s)
	}},
	{"messages read", func(t *things) string {
		u := make1(t.raw, nil)
		return hex(u.addrs.Bytes()) + hex(u.headers.Bytes()) + hex(u.hashes.Bytes()) + hex(u.fail.Bytes())
	}},
	{"versions", func(t *things) string {
		d := consensus.MinimumDifficulty
		return fmt.Sprint(consensus.ValidateBlockVersion(7, 1), d.FromNum(3), d.FromHash(t.locator.Hashes[0]))
	}},
}

// pure are two users of functions that only compute, with the same objects.
func pure() (l []actorPair) {
	raw, stored := realchain.Bytes()
	exp := make([]string, len(calls))
	for i, c := range calls {
		exp[i] = c.f(make1(raw, stored))
		if again := c.f(make1(raw, stored)); again != exp[i] {
			exp[i] = "" // addresses or random
		}
	}
	for i, a := range calls {
		for j := i; j < len(calls); j++ {
			a, b, ea, eb := a, calls[j], exp[i], exp[j]
			l = append(l, actorPair{"pure " + a.name + " | " + b.name, func() {
				psim.Reset()
				t := make1(raw, stored)
				vsched.Spawn("first", func() { expect(a, t, ea) })
				vsched.Spawn("second", func() { expect(b, t, eb) })
				vsched.Settle(vsched.Second)
				vsched.Outcome("done")
			}})
		}
	}
	return
}

type actorPair struct {
	name string
	f    func()
}

func expect(c call, t *things, exp string) {
	if got := c.f(t); got != exp && exp != "" {
		vsched.Fail("race result", "%s: %s instead of %s", c.name, got, exp)
	}
}

package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
)

// Rng is the only source of choice; it is seeded by VERIF_SEED, the property and the case number.
type Rng struct{ *rand.Rand }

func newRng(seed uint64, salt string, n int) *Rng {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprintf("%d/%s/%d", seed, salt, n)) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return &Rng{rand.New(rand.NewPCG(h, h^0x9e3779b97f4a7c15))}
}

func (r *Rng) pick(a []string) string { return a[r.IntN(len(a))] }
func (r *Rng) pickInt(a ...int) int   { return a[r.IntN(len(a))] }
func (r *Rng) chance(p float64) bool  { return r.Float64() < p }
func (r *Rng) between(lo, hi int) int { return lo + r.IntN(hi-lo+1) }
func (r *Rng) shuffle(a []string)     { r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] }) }
func (r *Rng) sub(a []string, n int) []string {
	b := append([]string{}, a...)
	r.shuffle(b)
	if n < len(b) {
		b = b[:n]
	}
	return b
}

const wordAlpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
const quotedAlpha = wordAlpha + `.,!@#$%^&*()[]+=~;: `

// keywords cannot be written as ids without quotes.
var keywords = []string{"world", "endworld", "error", "ok", "item", "items", "rel", "rels", "in", "create", "delete", "set", "clear",
	"fetch", "list", "exists", "free", "nest"}

func isKeyword(s string) bool {
	for _, k := range keywords {
		if k == s {
			return true
		}
	}
	return false
}

func isWord(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isWordByte(s[i]) {
			return false
		}
	}
	return true
}

// plainId tells whether the id can be written without quotes.
func plainId(s string) bool { return isWord(s) && !isKeyword(s) && s[0] != '-' }

var simpleIds = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

// Groups of ids that careless code confuses with one another.
var hostileGroups = [][]string{
	{"Aa", "BB", "plumless", "buckeroo", "costarring", "liquid", "hetairas", "mentioner", "cataract", "periti"}, // with the same common hashes
	{"a", "ab", "abc", "b", "bc", "c", "A", "AB"},
	{"a", "a b", "b", "a  b", " a", "a ", " "},
	{"a", "a::b", "b", "b::c", "c", "::", ":", "a:", ":b"},
	{"1", "2", "10", "01", "1-0", "0", "11", "-1"},
	{"nil", "null", "nil-1", "true", "false", "NIL", "none", "0"},
	{"in", "item", "rel", "world", "nest", "free", "create", "delete", "items", "set"},
	{"internal", "item-1", "relay", "worlds", "nested", "freedom", "creator", "deleter", "items", "settings", "info", "okay", "errors", "fetcher", "listing", "cleared", "endworlds", "existsnot"},
	{"$$", "$$$$", "endworld$$", "$$world", "200 ok", "450 error", "$", "$$$$ 200 ok"},
	{"%s", "%d", "%!v", "%", "%%", "100%", "%v%v", "%x"},
	{"name=x", "type=person", "a=b", "=", "verb", "name", "type", "external=true"},
	{"[a]", "]", "[", "(a)", "::[", "]::[", "a]", ";"},
	{"svc.api", "svc.db", "svc", "svc-api", "svc_api", "svc~1", "svc,api", "svc;api"},
	{"item a", "rel a b", "a b c", "in a", "a in b", "list 1", "item create x", "world"},
	{"0123456789012345678901234567890123456789", "x", "xx", "xxx", "xxxx", "xxxxx", "xxxxxx", "xxxxxxx"},
	{"a", "Aa", "aA", "AA", "aa", "a-a", "a_a", "a-_a"},
	{"person", "queue", "code", "server", "strict", "ids", "verbose", "-strict", "--strict", "-verbose", "--ids", "-"},
	{"w", "default-world", "the world", "shared", "default", "x", "a", "world-w"}, // names that the worlds have
	{"a!b", "a@b", "a#b", "a^b", "a&b", "a*b", "a+b", "a~b", "!", "@#^&*"},
}

// idPool picks the ids of one case: mostly few of them, so that commands collide.
func (r *Rng) idPool() []string {
	switch x := r.Float64(); {
	case x < 0.35:
		return append([]string{}, simpleIds[:r.between(3, 8)]...)
	case x < 0.85:
		g := hostileGroups[r.IntN(len(hostileGroups))]
		return r.sub(g, r.between(4, 9))
	case x < 0.95:
		var p []string
		for i := 0; i < 7; i++ {
			g := hostileGroups[r.IntN(len(hostileGroups))]
			p = append(p, r.pick(g))
		}
		return uniq(p)
	case x < 0.985:
		var p []string
		for i := 0; i < 7; i++ {
			p = append(p, r.text(quotedAlpha, 1, 12))
		}
		return uniq(p)
	default: // long ids that differ little
		base := r.text(quotedAlpha, 60, 300)
		p := []string{base, base + "x", base + "y", base[1:], base[:len(base)-1], strings.Repeat("n", r.between(100, 400)), "a"}
		return uniq(p)
	}
}

// bigPool is n distinct ids, some alike.
func (r *Rng) bigPool(n int) []string {
	var p []string
	for i := 0; i < n; i++ {
		switch r.IntN(4) {
		case 0:
			p = append(p, fmt.Sprintf("svc-%d", i))
		case 1:
			p = append(p, fmt.Sprintf("svc %d", i))
		default:
			p = append(p, fmt.Sprintf("n%d", i))
		}
	}
	return uniq(p)
}

func uniq(a []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func (r *Rng) text(alpha string, lo, hi int) string {
	n := r.between(lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.IntN(len(alpha))]
	}
	return string(b)
}

var hostileValues = []string{"", "x", "y", "true", "false", "0", "1", "nil", "name", "in", "item", "a b", " ", "  x  ", "a::b", "$$$$", "$$", "200 ok",
	"endworld$$", "%s %d", "%!s(MISSING)", "name=y", "type=person", "::[", "]", "John Doe", "person", "reads, writes; uses: everything!",
	"a=b&c=d", "(x)", "[1,2]", "~", "2024-05-27", "v1.2.3", "user@host.com", "100%", "C++", "-strict", "--strict", "-verbose", "--ids", "item a name=b", "rel a b", "-", "_", "A", "^*#",
	"007", "00", "+1", "-0", "1e3", "0x1F", "1.0", "1_000", "TRUE", "True", "null", "None", "yes", "no", "on", "NaN", "undefined", "&amp;", "%20", "$HOME", "~x", "x-", "-x", "x--", "_x_", "...", "a.", ".b",
	"async=true", "external=true", "x async=true", " async=true", "verb=x", "mechanism=y", "expanded=z", "async=false", "verb=reads mechanism=HTTP", "x::[", "type=", "limit=1", "the 404 error page", "200 ok done", "450 error", "a 409 error ,", "x 600 error"}

func (r *Rng) value() string {
	switch x := r.Float64(); {
	case x < 0.75:
		return r.pick(hostileValues)
	case x < 0.97:
		return r.text(quotedAlpha, 0, 20)
	case x > 0.9985: // from 2 000 to 60 000 characters
		return r.text(quotedAlpha, 1, 1) + strings.Repeat(r.text(quotedAlpha, 50, 50), 40*r.pickInt(1, 2, 5, 10, 20, 30))
	default:
		return r.text(quotedAlpha, 200, 2000)
	}
}

func (r *Rng) itemParams(lo, hi int) [][2]string {
	names := r.sub([]string{"type", "name", "mechanism", "expanded", "external"}, r.between(lo, hi))
	var p [][2]string
	for _, n := range names {
		switch n {
		case "type":
			p = append(p, [2]string{n, r.pick(itemTypes)})
		case "external":
			p = append(p, [2]string{n, r.pick([]string{"true", "false"})})
		default:
			p = append(p, [2]string{n, r.value()})
		}
	}
	return p
}

func (r *Rng) relParams(lo, hi int) [][2]string {
	names := r.sub([]string{"verb", "mechanism", "expanded", "async"}, r.between(lo, hi))
	var p [][2]string
	for _, n := range names {
		if n == "async" {
			p = append(p, [2]string{n, r.pick([]string{"true", "false"})})
		} else {
			p = append(p, [2]string{n, r.value()})
		}
	}
	return p
}

func (r *Rng) space() string {
	if r.chance(0.85) {
		return " "
	}
	return r.pick([]string{"  ", "\t", "\n", "\r\n", " \t ", "\r", "   \n"})
}

func (r *Rng) idText(id string, mustQuote bool) string {
	if plainId(id) && !mustQuote && r.chance(0.6) {
		return id
	}
	return `"` + id + `"`
}

func (r *Rng) valText(v string) string {
	if isWord(v) && r.chance(0.4) {
		return v
	}
	return `"` + v + `"`
}

func (r *Rng) paramText(p [][2]string) string {
	var b strings.Builder
	for _, kv := range p {
		b.WriteString(r.space())
		b.WriteString(kv[0] + "=")
		if kv[0] == "type" || kv[0] == "external" || kv[0] == "async" {
			b.WriteString(kv[1])
		} else {
			b.WriteString(r.valText(kv[1]))
		}
	}
	return b.String()
}

// render writes the command as text, in one of many equivalent ways.
func (r *Rng) render(op *Op) {
	sp := func() string { return r.space() }
	item := func() string { return r.pick([]string{"item", "item", "items"}) }
	rel := func() string { return r.pick([]string{"rel", "rel", "rels"}) }
	id := func(s string) string { return r.idText(s, false) }
	lead, trail := "", ""
	if r.chance(0.1) {
		lead = r.space()
	}
	if r.chance(0.1) {
		trail = r.space()
	}
	ids := func() string {
		var p []string
		for _, x := range op.Ids {
			p = append(p, id(x))
		}
		out := ""
		for i, x := range p {
			if i > 0 {
				out += sp()
			}
			out += x
		}
		return out
	}
	keys := func() string {
		out := ""
		for _, k := range op.Keys {
			out += sp() + k
		}
		return out
	}
	lim := func() string {
		if op.Limit == nil {
			return ""
		}
		return sp() + r.pick([]string{"", "", "", "0", "00"}) + fmt.Sprint(*op.Limit)
	}
	t := ""
	switch op.K {
	case KItemCreate:
		t = item() + sp() + "create" + sp() + id(op.A) + r.paramText(op.P)
	case KItemSet:
		t = item() + sp() + "set" + sp() + id(op.A) + r.paramText(op.P)
	case KItemClear:
		t = item() + sp() + "clear" + sp() + id(op.A) + keys()
	case KItemDelete:
		t = item() + sp() + "delete" + sp() + id(op.A)
	case KItemFetch:
		t = item() + sp() + "fetch" + sp() + id(op.A)
	case KItemList:
		t = item() + sp() + "list" + lim()
	case KItemIn:
		t = item() + sp() + "in" + sp() + id(op.A)
	case KItemExists:
		t = r.pick([]string{"item?", item() + sp() + "exists"}) + sp() + id(op.A)
	case KItemCF, KItemCS:
		t = item() + sp() + id(op.A) + r.paramText(op.P)
	case KNest:
		t = "nest" + sp() + ids() + sp() + "in" + sp() + id(op.B)
	case KFree:
		t = "free" + sp() + ids()
	case KIn:
		t = "in?" + sp() + id(op.A) + sp() + id(op.B)
	case KRelCreate:
		t = rel() + sp() + "create" + sp() + id(op.A) + sp() + id(op.B) + r.paramText(op.P)
	case KRelSet:
		t = rel() + sp() + "set" + sp() + id(op.A) + sp() + id(op.B) + r.paramText(op.P)
	case KRelClear:
		t = rel() + sp() + "clear" + sp() + id(op.A) + sp() + id(op.B) + keys()
	case KRelDelete:
		t = rel() + sp() + "delete" + sp() + id(op.A) + sp() + id(op.B)
	case KRelFetch:
		t = rel() + sp() + "fetch" + sp() + id(op.A) + sp() + id(op.B)
	case KRelList:
		t = rel() + sp() + "list" + lim()
	case KRelExists:
		t = r.pick([]string{"rel?", rel() + sp() + "exists"}) + sp() + id(op.A) + sp() + id(op.B)
	case KRelCF, KRelCS:
		t = rel() + sp() + id(op.A) + sp() + id(op.B) + r.paramText(op.P)
	case KTo:
		t = "to?" + sp() + id(op.A)
	case KFrom:
		t = "from?" + sp() + id(op.A)
	case KWorld:
		t = "world"
	default:
		return
	}
	flags := op.Flags
	if op.Strict && len(flags) == 0 {
		flags = []string{"strict"}
	}
	for _, f := range flags {
		t += sp() + r.pick([]string{"-", "--"}) + f
	}
	op.Text = lead + t + trail
}

// Weights of the kinds of commands in a workload.
type Weights map[string]int

var mutWeights = Weights{KItemCreate: 6, KItemSet: 4, KItemClear: 2, KItemDelete: 3, KItemCF: 3, KItemCS: 3, KNest: 8, KFree: 3,
	KRelCreate: 5, KRelSet: 3, KRelClear: 1, KRelDelete: 2, KRelCF: 2, KRelCS: 2}

func (w Weights) with(o Weights) Weights {
	n := Weights{}
	for k, v := range w {
		n[k] = v
	}
	for k, v := range o {
		n[k] = v
	}
	return n
}

// kindOrder fixes the order of choice, since maps have none.
var kindOrder = []string{KItemCreate, KItemSet, KItemClear, KItemDelete, KItemFetch, KItemList, KItemIn, KItemExists, KItemCF, KItemCS,
	KNest, KFree, KIn, KRelCreate, KRelSet, KRelClear, KRelDelete, KRelFetch, KRelList, KRelExists, KRelCF, KRelCS, KTo, KFrom, KWorld,
	KGarbage, KUndo, KRedo, KUndoRedoAll}

// swarm varies the mix of commands: in a share of the cases some kinds are left out and others come more often, so
// that long runs without the left out ones happen.
func (r *Rng) swarm(w Weights) Weights {
	if !r.chance(0.4) {
		return w
	}
	n, total := Weights{}, 0
	for _, k := range kindOrder {
		if w[k] > 0 && r.chance(0.55) {
			n[k] = w[k] * r.between(1, 4)
			total += n[k]
		}
	}
	if total == 0 {
		return w
	}
	return n
}

func (r *Rng) kind(w Weights) string {
	total := 0
	for _, k := range kindOrder {
		total += w[k]
	}
	x := r.IntN(total)
	for _, k := range kindOrder {
		x -= w[k]
		if x < 0 {
			return k
		}
	}
	return KWorld
}

// Gen makes workloads; it follows along with a model so that most commands make sense.
type Gen struct {
	*Rng
	Pool []string
	M    *Snap
	Miss float64 // share of ids that are taken blindly

	said map[string][]Op // what was generated before, by kind
}

func newGen(r *Rng, pool []string) *Gen { return &Gen{Rng: r, Pool: pool, M: newSnap(), Miss: 0.15} }

// id takes an id for which something probably exists, or not.
func (g *Gen) existing() string {
	ids := g.M.SortedIds()
	if len(ids) == 0 || g.chance(g.Miss) {
		return g.anyId()
	}
	return g.pick(ids)
}

func (g *Gen) anyId() string {
	if g.chance(0.01) {
		return ""
	}
	if g.chance(0.02) {
		return g.similar(g.pick(g.Pool))
	}
	return g.pick(g.Pool)
}

// similar makes another id that is easily taken for this one.
func (r *Rng) similar(id string) string {
	swap := func(c rune) rune {
		switch {
		case c >= 'a' && c <= 'z':
			return c - 'a' + 'A'
		case c >= 'A' && c <= 'Z':
			return c - 'A' + 'a'
		}
		return c
	}
	switch r.IntN(9) {
	case 0:
		return strings.ToUpper(id)
	case 1:
		return strings.ToLower(id)
	case 2:
		return strings.Map(swap, id)
	case 3:
		return id + " "
	case 4:
		return " " + id
	case 5:
		return id[:len(id)-1]
	case 6:
		return id + id[len(id)-1:]
	case 7:
		return strings.Join(strings.Fields(id), " ")
	default:
		return strings.NewReplacer("-", "_", "_", "-", " ", "-", ".", ",", ":", ";").Replace(id)
	}
}

func (g *Gen) fresh() string {
	for i := 0; i < 4; i++ {
		if id := g.pick(g.Pool); !g.M.has(id) {
			return id
		}
	}
	return g.anyId()
}

func (g *Gen) pair() (string, string) {
	ps := g.M.SortedPairs()
	switch x := g.Float64(); {
	case len(ps) > 0 && x < 0.55:
		p := ps[g.IntN(len(ps))]
		return p.From, p.To
	case len(ps) > 0 && x < 0.68: // the reverse of an existing one
		p := ps[g.IntN(len(ps))]
		return p.To, p.From
	case x < 0.75:
		a := g.existing()
		return a, a
	}
	return g.existing(), g.existing()
}

// hugeLimits are more than there is, also where only some of their bits count.
var hugeLimits = []int{1000000, 255, 256, 257, 65536, 65537, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1<<48 + 1, 1 << 62, 1<<63 - 1, 1<<63 - 2}

func (g *Gen) limit() *int {
	if g.chance(0.4) {
		return nil
	}
	n := len(g.M.Items)
	l := []int{0, 1, 2, n - 1, n, n + 1, hugeLimits[g.IntN(len(hugeLimits))], g.IntN(n + 3)}[g.IntN(8)]
	if l < 0 {
		l = 0
	}
	return &l
}

// usedValue takes a value that some item or relationship has.
func (g *Gen) usedValue(v string) string {
	var vs []string
	if ids := g.M.SortedIds(); len(ids) > 0 {
		it := g.M.Items[g.pick(ids)]
		vs = append(vs, it.Name, it.Mech, it.Exp, it.Id)
	}
	if ps := g.M.SortedPairs(); len(ps) > 0 {
		x := g.M.Rels[ps[g.IntN(len(ps))]]
		vs = append(vs, x.Verb, x.Mech, x.Exp, x.P.To)
	}
	if len(vs) == 0 {
		return v
	}
	return g.pick(vs)
}

func (g *Gen) reuse(p [][2]string) [][2]string {
	if !g.chance(0.25) {
		return p
	}
	for i, kv := range p {
		switch kv[0] {
		case "type", "external", "async":
		default:
			if g.chance(0.6) {
				p[i][1] = g.usedValue(kv[1])
			}
		}
	}
	return p
}

// itemParams are as of any generator, or values in use, or all those of another item.
func (g *Gen) itemParams(lo, hi int) [][2]string {
	if ids := g.M.SortedIds(); len(ids) > 0 && hi > 2 && g.chance(0.06) {
		it := g.M.Items[g.pick(ids)]
		p := [][2]string{{"name", it.Name}, {"mechanism", it.Mech}, {"expanded", it.Exp}}
		if it.Ext {
			p = append(p, [2]string{"external", "true"})
		}
		if it.Type != "" {
			p = append(p, [2]string{"type", it.Type})
		}
		return p[:max(lo, min(len(p), hi))]
	}
	return g.reuse(g.Rng.itemParams(lo, hi))
}

// relParams are as of any generator, or values in use, or all those of the reverse or of another relationship.
func (g *Gen) relParams(p Pair, lo, hi int) [][2]string {
	if ps := g.M.SortedPairs(); len(ps) > 0 && hi > 2 && g.chance(0.15) {
		v, ok := g.M.Rels[Pair{p.To, p.From}]
		if !ok {
			v = g.M.Rels[ps[g.IntN(len(ps))]]
		}
		out := [][2]string{{"verb", v.Verb}, {"mechanism", v.Mech}, {"expanded", v.Exp}}
		if v.Async {
			out = append(out, [2]string{"async", "true"})
		}
		return out
	}
	return g.reuse(g.Rng.relParams(lo, hi))
}

func (g *Gen) op(kind string) Op {
	if before := g.said[kind]; len(before) > 0 && g.chance(0.05) { // the very same again
		op := before[g.IntN(len(before))]
		op.Ids, op.P, op.Keys, op.Flags = slices.Clone(op.Ids), slices.Clone(op.P), slices.Clone(op.Keys), slices.Clone(op.Flags)
		return op
	}
	op := g.newOp(kind)
	if kind != KGarbage {
		if g.said == nil {
			g.said = map[string][]Op{}
		}
		g.said[kind] = append(g.said[kind], op)
	}
	return op
}

func (g *Gen) newOp(kind string) Op {
	op := Op{K: kind}
	switch kind {
	case KItemCreate:
		op.A = g.fresh()
		if g.chance(0.2) {
			op.A = g.existing()
		}
		op.P = g.itemParams(0, 5)
	case KItemCF:
		op.A = g.fresh()
		if g.chance(0.4) {
			op.A = g.existing()
		}
	case KItemCS:
		op.A = g.fresh()
		if g.chance(0.6) {
			op.A = g.existing()
		}
		op.P = g.itemParams(1, 5)
	case KItemSet:
		op.A = g.existing()
		op.P = g.itemParams(1, 4)
		if g.chance(0.05) {
			op.P = nil
		}
	case KItemClear:
		op.A = g.existing()
		op.Keys = g.sub([]string{"type", "name", "mechanism", "expanded", "external"}, g.pickInt(1, 1, 2, 2, 3, 3, 4, 5))
	case KItemDelete, KItemFetch, KItemIn, KItemExists:
		op.A = g.existing()
	case KItemList, KRelList:
		op.Limit = g.limit()
	case KNest:
		n := 1
		if g.chance(0.3) {
			n = g.between(2, 4)
		}
		for i := 0; i < n; i++ {
			op.Ids = append(op.Ids, g.existing())
		}
		op.B = g.existing()
		if g.chance(0.3) { // deep rather than wide
			for _, id := range g.M.SortedIds() {
				if g.M.Parent[id] != "" && g.chance(0.3) {
					op.B = id
				}
			}
		}
	case KFree:
		n := 1
		if g.chance(0.3) {
			n = g.between(2, 3)
		}
		for i := 0; i < n; i++ {
			op.Ids = append(op.Ids, g.existing())
		}
	case KIn:
		op.A, op.B = g.existing(), g.existing()
		if op.A == op.B {
			op.B = g.existing()
		}
		if op.A == op.B {
			return g.op(KItemExists)
		}
	case KRelCreate, KRelCF, KRelCS:
		op.A, op.B = g.existing(), g.existing()
		if g.chance(0.3) {
			op.A, op.B = g.pair()
		}
		switch kind {
		case KRelCreate:
			op.P = g.relParams(Pair{op.A, op.B}, 0, 4)
		case KRelCS:
			op.P = g.relParams(Pair{op.A, op.B}, 1, 4)
		}
	case KRelSet:
		op.A, op.B = g.pair()
		op.P = g.relParams(Pair{op.A, op.B}, 1, 4)
	case KRelClear:
		op.A, op.B = g.pair()
		op.Keys = g.sub([]string{"verb", "mechanism", "expanded", "async"}, g.between(1, 3))
	case KRelDelete, KRelExists:
		op.A, op.B = g.pair()
	case KRelFetch:
		op.A, op.B = g.pair()
		op.Strict = g.chance(0.4)
		if !op.Strict && g.chance(0.5) { // ask about what contains the ends
			if p := g.M.Parent[op.A]; p != "" {
				op.A = p
			}
			if p := g.M.Parent[op.B]; p != "" {
				op.B = p
			}
		}
	case KTo, KFrom:
		op.A = g.existing()
		op.Strict = g.chance(0.4)
	case KGarbage:
		op.Text = g.garbage()
		return op
	}
	switch {
	case op.K == KTo || op.K == KFrom || op.K == KRelFetch:
		if g.chance(0.2) {
			g.flags(&op, []string{"verbose"})
		}
	case g.chance(0.04):
		op.Strict = g.chance(0.5)
		g.flags(&op, []string{"verbose", "ids"})
	}
	g.render(&op)
	return op
}

// flags gives the command some flags besides strict, which it keeps or not, before and after them.
func (g *Gen) flags(op *Op, others []string) {
	op.Flags = nil
	for n := g.between(1, 3); n > 0; n-- {
		op.Flags = append(op.Flags, g.pick(others))
	}
	if op.Strict {
		op.Flags = slices.Insert(op.Flags, g.IntN(len(op.Flags)+1), "strict")
		if g.chance(0.1) {
			op.Flags = append(op.Flags, "strict")
		}
	}
}

// garbage is text that is certainly no valid command.
func (g *Gen) garbage() string {
	id := g.idText(g.existing(), false)
	switch g.IntN(17) {
	case 14, 15, 16: // a command with something after it that belongs to no command
		op := g.op(g.kind(mutWeights.with(Weights{KItemFetch: 2, KItemList: 2, KRelList: 2, KWorld: 2, KTo: 1})))
		return strings.TrimSpace(op.Text) + g.pick([]string{" # note", " # ", " #note", " ;", "; world", " ; item create added", " && world", " | more", " // note", " \\", " !", " .", ",", " )", " * 2", " \"", " =", " <- this", " /* x */", " ~"})
	case 0:
		return ""
	case 1:
		return g.space()
	case 2:
		return "item create"
	case 3:
		return "nest " + id + " in"
	case 4:
		return "rel create " + id
	case 5:
		return "item create " + id + " name=\"oops"
	case 6:
		return "item create " + id + " type=wizard"
	case 7:
		return "item create " + id + " color=red"
	case 8:
		return "item set " + id + " external=maybe"
	case 9:
		return "item clear " + id
	case 10:
		return "frobnicate " + id
	case 11:
		return "item delete " + id + " {now}"
	case 12:
		return "item create " + id + " name=\"caf\u00e9\""
	default:
		return "item list ten/2"
	}
}

// ops makes n commands, keeping the model in step.
func (g *Gen) ops(n int, w Weights) []Op {
	var out []Op
	if n >= 10 {
		w = g.swarm(w)
		if len(g.Pool) > 3 && g.chance(0.15) {
			g.Pool = g.sub(g.Pool, g.between(2, 3))
		}
	}
	for len(out) < n {
		if n >= 10 && g.chance(0.02) {
			out = append(out, g.again(w)...)
			continue
		}
		op := g.op(g.kind(w))
		g.M.Apply(op, false)
		out = append(out, op)
		if n >= 10 && g.chance(0.01) { // several times in a row
			for k := g.between(1, 6); k > 0; k-- {
				g.M.Apply(op, false)
				out = append(out, op)
			}
		}
	}
	return out
}

// again deletes something and makes it once more, perhaps with relationships and nesting.
func (g *Gen) again(w Weights) []Op {
	if w[KItemDelete] == 0 || w[KItemCreate]+w[KItemCF]+w[KItemCS] == 0 || len(g.M.Items) == 0 {
		return nil
	}
	var out []Op
	add := func(op Op) {
		g.render(&op)
		g.M.Apply(op, false)
		out = append(out, op)
	}
	id, other := g.existing(), g.existing()
	parent := g.M.Parent[id]
	add(Op{K: KItemDelete, A: id})
	add(Op{K: g.pick([]string{KItemCreate, KItemCF, KItemCS}), A: id})
	if w[KRelCreate] > 0 && g.chance(0.5) {
		p := [2]string{id, other}
		if g.chance(0.5) {
			p = [2]string{other, id}
		}
		add(Op{K: KRelCreate, A: p[0], B: p[1]})
	}
	if w[KNest] > 0 && g.chance(0.5) {
		if parent != "" && g.chance(0.5) {
			add(Op{K: KNest, Ids: []string{id}, B: parent})
		} else {
			add(Op{K: KNest, Ids: []string{other}, B: id})
		}
	}
	return out
}

// seedOps makes a world with some of everything in it.
func (g *Gen) seedOps(items, rels int, nestShare float64) []Op {
	var out []Op
	add := func(op Op) {
		g.render(&op)
		g.M.Apply(op, false)
		out = append(out, op)
	}
	ids := g.sub(g.Pool, items)
	for _, id := range ids {
		add(Op{K: KItemCreate, A: id, P: g.itemParams(0, 4)})
	}
	for i, id := range ids {
		if i > 0 && g.chance(nestShare) {
			add(Op{K: KNest, Ids: []string{id}, B: ids[g.IntN(i)]})
		}
	}
	for i := 0; i < rels && len(ids) > 0; i++ {
		a, b := g.pick(ids), g.pick(ids)
		add(Op{K: KRelCreate, A: a, B: b, P: g.relParams(Pair{a, b}, 0, 3)})
	}
	return out
}

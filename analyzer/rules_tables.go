package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C12

// the protocol's error codes: code name retriable
const kafkaErrors = `-1 UNKNOWN_SERVER_ERROR f; 1 OFFSET_OUT_OF_RANGE f; 2 CORRUPT_MESSAGE t; 3 UNKNOWN_TOPIC_OR_PARTITION t; 4 INVALID_FETCH_SIZE f; 5 LEADER_NOT_AVAILABLE t; 6 NOT_LEADER_OR_FOLLOWER t; 7 REQUEST_TIMED_OUT t; 8 BROKER_NOT_AVAILABLE f; 9 REPLICA_NOT_AVAILABLE t; 10 MESSAGE_TOO_LARGE f; 11 STALE_CONTROLLER_EPOCH f; 12 OFFSET_METADATA_TOO_LARGE f; 13 NETWORK_EXCEPTION t; 14 COORDINATOR_LOAD_IN_PROGRESS t; 15 COORDINATOR_NOT_AVAILABLE t; 16 NOT_COORDINATOR t; 17 INVALID_TOPIC_EXCEPTION f; 18 RECORD_LIST_TOO_LARGE f; 19 NOT_ENOUGH_REPLICAS t; 20 NOT_ENOUGH_REPLICAS_AFTER_APPEND t; 21 INVALID_REQUIRED_ACKS f; 22 ILLEGAL_GENERATION f; 23 INCONSISTENT_GROUP_PROTOCOL f; 24 INVALID_GROUP_ID f; 25 UNKNOWN_MEMBER_ID f; 26 INVALID_SESSION_TIMEOUT f; 27 REBALANCE_IN_PROGRESS f; 28 INVALID_COMMIT_OFFSET_SIZE f; 29 TOPIC_AUTHORIZATION_FAILED f; 30 GROUP_AUTHORIZATION_FAILED f; 31 CLUSTER_AUTHORIZATION_FAILED f; 32 INVALID_TIMESTAMP f; 33 UNSUPPORTED_SASL_MECHANISM f; 34 ILLEGAL_SASL_STATE f; 35 UNSUPPORTED_VERSION f; 36 TOPIC_ALREADY_EXISTS f; 37 INVALID_PARTITIONS f; 38 INVALID_REPLICATION_FACTOR f; 39 INVALID_REPLICA_ASSIGNMENT f; 40 INVALID_CONFIG f; 41 NOT_CONTROLLER t; 42 INVALID_REQUEST f; 43 UNSUPPORTED_FOR_MESSAGE_FORMAT f; 44 POLICY_VIOLATION f; 45 OUT_OF_ORDER_SEQUENCE_NUMBER f; 46 DUPLICATE_SEQUENCE_NUMBER f; 47 INVALID_PRODUCER_EPOCH f; 48 INVALID_TXN_STATE f; 49 INVALID_PRODUCER_ID_MAPPING f; 50 INVALID_TRANSACTION_TIMEOUT f; 51 CONCURRENT_TRANSACTIONS t; 52 TRANSACTION_COORDINATOR_FENCED f; 53 TRANSACTIONAL_ID_AUTHORIZATION_FAILED f; 54 SECURITY_DISABLED f; 55 OPERATION_NOT_ATTEMPTED f; 56 KAFKA_STORAGE_ERROR t; 57 LOG_DIR_NOT_FOUND f; 58 SASL_AUTHENTICATION_FAILED f; 59 UNKNOWN_PRODUCER_ID f; 60 REASSIGNMENT_IN_PROGRESS f; 61 DELEGATION_TOKEN_AUTH_DISABLED f; 62 DELEGATION_TOKEN_NOT_FOUND f; 63 DELEGATION_TOKEN_OWNER_MISMATCH f; 64 DELEGATION_TOKEN_REQUEST_NOT_ALLOWED f; 65 DELEGATION_TOKEN_AUTHORIZATION_FAILED f; 66 DELEGATION_TOKEN_EXPIRED f; 67 INVALID_PRINCIPAL_TYPE f; 68 NON_EMPTY_GROUP f; 69 GROUP_ID_NOT_FOUND f; 70 FETCH_SESSION_ID_NOT_FOUND t; 71 INVALID_FETCH_SESSION_EPOCH t; 72 LISTENER_NOT_FOUND t; 73 TOPIC_DELETION_DISABLED f; 74 FENCED_LEADER_EPOCH t; 75 UNKNOWN_LEADER_EPOCH t; 76 UNSUPPORTED_COMPRESSION_TYPE f; 77 STALE_BROKER_EPOCH f; 78 OFFSET_NOT_AVAILABLE t; 79 MEMBER_ID_REQUIRED f; 80 PREFERRED_LEADER_NOT_AVAILABLE t; 81 GROUP_MAX_SIZE_REACHED f; 82 FENCED_INSTANCE_ID f; 83 ELIGIBLE_LEADERS_NOT_AVAILABLE t; 84 ELECTION_NOT_NEEDED t; 85 NO_REASSIGNMENT_IN_PROGRESS f; 86 GROUP_SUBSCRIBED_TO_TOPIC f; 87 INVALID_RECORD f; 88 UNSTABLE_OFFSET_COMMIT t; 89 THROTTLING_QUOTA_EXCEEDED t; 90 PRODUCER_FENCED f; 91 RESOURCE_NOT_FOUND f; 92 DUPLICATE_RESOURCE f; 93 UNACCEPTABLE_CREDENTIAL f; 94 INCONSISTENT_VOTER_SET f; 95 INVALID_UPDATE_VERSION f; 96 FEATURE_UPDATE_FAILED f; 97 PRINCIPAL_DESERIALIZATION_FAILURE f; 98 SNAPSHOT_NOT_FOUND f; 99 POSITION_OUT_OF_RANGE f; 100 UNKNOWN_TOPIC_ID t; 101 DUPLICATE_BROKER_REGISTRATION f; 102 BROKER_ID_NOT_REGISTERED f; 103 INCONSISTENT_TOPIC_ID t; 104 INCONSISTENT_CLUSTER_ID f; 105 TRANSACTIONAL_ID_NOT_FOUND f; 106 FETCH_SESSION_TOPIC_ID_ERROR t; 107 INELIGIBLE_REPLICA f; 108 NEW_LEADER_ELECTED f; 109 OFFSET_MOVED_TO_TIERED_STORAGE f; 110 FENCED_MEMBER_EPOCH f; 111 UNRELEASED_INSTANCE_ID f; 112 UNSUPPORTED_ASSIGNOR f; 113 STALE_MEMBER_EPOCH f; 114 MISMATCHED_ENDPOINT_TYPE f; 115 UNSUPPORTED_ENDPOINT_TYPE f; 116 UNKNOWN_CONTROLLER_ID f; 117 UNKNOWN_SUBSCRIPTION_ID f; 118 TELEMETRY_TOO_LARGE f; 119 INVALID_REGISTRATION f; 120 TRANSACTION_ABORTABLE f; 121 INVALID_RECORD_STATE f; 122 SHARE_SESSION_NOT_FOUND t; 123 INVALID_SHARE_SESSION_EPOCH t; 124 FENCED_STATE_EPOCH f; 125 INVALID_VOTER_KEY f; 126 DUPLICATE_VOTER f; 127 VOTER_NOT_FOUND f; 128 INVALID_REGULAR_EXPRESSION f; 129 REBOOTSTRAP_REQUIRED f`

type kerr struct {
	name  string
	retry bool
}

func kafkaErrorTable() map[int64]kerr {
	r := map[int64]kerr{}
	for _, l := range strings.Split(kafkaErrors, "; ") {
		f := strings.Fields(l)
		n, _ := strconv.ParseInt(f[0], 10, 64)
		r[n] = kerr{f[1], f[2] == "t"}
	}
	return r
}

// cfield: the named field of a constant struct (through a pointer)
func cfield(v *cval, name string) *cval {
	if v == nil {
		return nil
	}
	if v.k == cPtr {
		v = v.cell.v
	}
	if v == nil || v.k != cStruct || v.t == nil {
		return nil
	}
	u, ok := v.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if strings.EqualFold(u.Field(i).Name(), name) && i < len(v.sub) {
			return v.sub[i].v
		}
	}
	return nil
}

func init() {
	register("C12", "constant propagation through the package initialisers and the error functions, compared with the protocol's error table", ruleC12)
	register("C05", "constant propagation of the version negotiation over every order type of the advertised range relative to the implemented versions", ruleC05)
	register("C38", "constant propagation of the text conversions over all protocol codes and names, compared with the protocol's tables", ruleC38)
	register("C37", "constant propagation of the codec selection over all names and codes; def-use analysis of compression codes back to the attribute bits", ruleC37)
}

func (c *Ctx) cfuncs(e *CEval) {
	for f := range e.funcs {
		c.funcs[f] = true
	}
}

func ruleC12(c *Ctx) {
	p := c.p
	c.rule("table", "every entry of the error table has the code of its key and that code's name and retriability in the protocol")
	c.rule("lookup", "name and retriability of a Kafka error are those of its own code, and a code the table does not have is neither retriable nor a crash")
	c.rule("error-of-code", "code 0 gives no error, every other code, known or not, an error that is the Kafka error of that code")
	c.rule("table-fixed", "the table is filled by the package initialiser only")
	ref := kafkaErrorTable()
	e := newCEval(p)
	// the table: a package-level map from int16 to a struct with a code, a name and a retriable flag
	var g *ssa.Global
	for _, n := range sortedKeys(p.core.Members) {
		x, ok := p.core.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		m, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || intKind(m.Key()) != types.Int16 {
			continue
		}
		if u, ok := deref(m.Elem()).Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if strings.EqualFold(u.Field(i).Name(), "Retriable") {
					g = x
				}
			}
		}
	}
	if g == nil {
		c.fail("anchor", "error table", token.NoPos, nil, "no package-level table of Kafka errors was found")
		return
	}
	var tab *cval
	if cl := e.globals[g]; cl != nil {
		tab = cl.v
	}
	if tab == nil || tab.k != cMap || tab.m.unk {
		c.fail("undecided", g.Name(), g.Pos(), nil, "the content of %s is not constant", g.Name())
		return
	}
	keys := map[int64]bool{}
	for i, k := range tab.m.keys {
		if k.k != cInt {
			continue
		}
		keys[k.i] = true
		c.count("error codes", 1)
		v := tab.m.vals[i]
		code, name, rt := cfield(v, "ErrorCode"), cfield(v, "ErrorMsg"), cfield(v, "Retriable")
		r, known := ref[k.i]
		what := fmt.Sprintf("%s[%d]", g.Name(), k.i)
		if !known {
			if code == nil || code.k != cInt || code.i != k.i {
				c.fail("table", what, g.Pos(), nil, "%s has the code %s", what, code)
			}
			continue
		}
		switch {
		case code == nil || name == nil || rt == nil:
			c.fail("table", what, g.Pos(), nil, "%s cannot be resolved", what)
		case code.k != cInt || code.i != k.i:
			c.fail("table", what, g.Pos(), nil, "%s has the code %s", what, code)
		case name.k != cStr || name.s != r.name:
			c.fail("table", what, g.Pos(), nil, "%s is named %s; the protocol names code %d %s", what, name, k.i, r.name)
		case rt.k != cBool || (rt.i != 0) != r.retry:
			c.fail("table", what, g.Pos(), nil, "%s: retriable is %s; in the protocol it is %v", what, rt, r.retry)
		}
	}
	c.floor("error codes", 100)
	// nobody else writes the table
	for _, f := range p.funcs {
		if f.Name() == "init" || isInitN(f.Name()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) && !initOnly(p, f) {
						c.fail("table-fixed", fname(f), instrPos(in), nil, "%s changes the error table", fname(f))
					}
				}
			}
		}
	}
	kt := p.typ("KafkaError")
	if kt == nil {
		c.fail("anchor", "KafkaError", token.NoPos, nil, "the type KafkaError was not found")
		return
	}
	inputs := []*cval{{k: cOther}}
	for _, k := range sortedInts(keys) {
		inputs = append(inputs, ckInt(k, kt))
	}
	inputs = append(inputs, ckInt(0, kt))
	eval := func(fn *ssa.Function, in *cval, judge func(cpath) string) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		ps, why := e.paths(fn, func() []*cval { return []*cval{in} })
		what := fmt.Sprintf("%s of code %s", fname(fn), in)
		if why != "" {
			c.fail("undecided", what, fn.Pos(), nil, "%s cannot be decided: %s", what, why)
			return
		}
		c.count("evaluations", 1)
		for _, cp := range ps {
			msg := ""
			if cp.panic != "" {
				msg = cp.panic
			} else {
				msg = judge(cp)
			}
			if msg != "" {
				rule := "lookup"
				if fn.Signature.Recv() == nil {
					rule = "error-of-code"
				}
				c.fail(rule, what, fn.Pos(), nil, "%s: %s", what, msg)
				return
			}
		}
	}
	var errFns []*ssa.Function
	for _, f := range p.funcs {
		s := f.Signature
		if f.Pkg == p.core && f.Parent() == nil && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && intKind(s.Params().At(0).Type()) == types.Int16 && isErrT(s.Results().At(0).Type()) {
			errFns = append(errFns, f)
		}
	}
	for _, in := range inputs {
		in := in
		r, known := ref[in.i]
		known = known && in.k == cInt && keys[in.i]
		eval(p.method("KafkaError", "IsRetriable"), in, func(cp cpath) string {
			if cp.ret.k != cBool || (cp.ret.i != 0) != (known && r.retry) {
				return fmt.Sprintf("gives %s", cp.ret)
			}
			return ""
		})
		eval(p.method("KafkaError", "Error"), in, func(cp cpath) string {
			all := cp.ret.String()
			for _, k := range cp.calls {
				all += k.String()
			}
			if known && !strings.Contains(all, r.name) {
				return "the text does not name " + r.name
			}
			if cp.ret.k == cStr && cp.ret.s == "" {
				return "the text is empty"
			}
			return ""
		})
		for _, f := range errFns {
			eval(f, in, func(cp cpath) string {
				if in.k == cInt && in.i == 0 {
					if cp.ret.k != cNil {
						return "is not nil"
					}
					return ""
				}
				if !isKafkaErr(cp.ret, in) {
					return "is " + cp.ret.String() + ", not the Kafka error of that code"
				}
				return ""
			})
		}
	}
	c.count("code-to-error functions", len(errFns))
	c.floor("evaluations", 200)
	c.cfuncs(e)
}

// isKafkaErr: v is, or wraps with %w, KafkaError(code)
func isKafkaErr(v, code *cval) bool {
	switch v.k {
	case cIface:
		if isNamed(v.t, "KafkaError") {
			eq, ok := ceq(v.a[0], code)
			return eq && ok
		}
	case cErr:
		for i, a := range v.a {
			if isKafkaErr(a, code) && strings.HasSuffix(verbAt(v.s, i), "w") {
				return true
			}
		}
	}
	return false
}

// verbAt: the formatting verb of argument i
func verbAt(format string, i int) string {
	n := 0
	for j := 0; j < len(format); j++ {
		if format[j] != '%' {
			continue
		}
		k := j + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.[]", format[k]) >= 0 {
			k++
		}
		if k < len(format) && format[k] != '%' {
			if n == i {
				return format[j : k+1]
			}
			n++
		}
		j = k
	}
	return ""
}

func sortedInts(m map[int64]bool) []int64 {
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// initOnly: f runs only as part of package initialisation
func initOnly(p *Prog, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(*ssa.Function) bool
	up = func(g *ssa.Function) bool {
		if g.Name() == "init" || isInitN(g.Name()) {
			return true
		}
		if seen[g] {
			return true
		}
		seen[g] = true
		cs := p.callersOf()[g]
		if len(cs) == 0 {
			return false
		}
		for _, k := range cs {
			if !up(k) {
				return false
			}
		}
		return true
	}
	return up(f)
}

// ---------------------------------------------------------------- C05

func ruleC05(c *Ctx) {
	p := c.p
	c.rule("highest-common", "for every API and every advertised range the result is the highest implemented version inside the range, and 0 when there is none or the API is not advertised")
	c.rule("ordered-table", "ranges advertised for other APIs do not matter, whatever their order")
	neg := c.negotiator()
	if neg == nil {
		c.fail("anchor", "negotiation", token.NoPos, nil, "the function that negotiates versions was not found")
		return
	}
	_, tab := p.versionTable()
	if tab == nil {
		c.fail("anchor", "versions", token.NoPos, nil, "the table of implemented versions was not found")
		return
	}
	e := newCEval(p)
	at := p.typ("APIVersion")
	bt := p.typ("Broker")
	if at == nil || bt == nil {
		c.fail("anchor", "APIVersion", token.NoPos, nil, "the type of an advertised range was not found")
		return
	}
	entry := func(api, lo, hi int64) *ccell {
		v := czero(at)
		for _, f := range v.sub {
			_ = f
		}
		set := func(n string, x int64) {
			u := at.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if strings.EqualFold(u.Field(i).Name(), n) {
					v.sub[i].v = ckInt(x, u.Field(i).Type())
				}
			}
		}
		set("apiKey", api)
		set("minVersion", lo)
		set("maxVersion", hi)
		return &ccell{v}
	}
	broker := func(es ...*ccell) *cval {
		v := czero(bt)
		u := bt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if s, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), at) {
				v.sub[i].v = &cval{k: cSlice, t: u.Field(i).Type(), i: -1, sub: es}
			}
		}
		return &cval{k: cPtr, cell: &ccell{v}}
	}
	apis := map[int64]bool{}
	for k := range tab {
		apis[k] = true
	}
	for _, ks := range p.requestAPIs() {
		for k := range ks {
			n, _ := strconv.ParseInt(k, 10, 64)
			apis[n] = true
		}
	}
	bad := map[int64]bool{}
	check := func(api int64, want int64, desc string, mk func() *cval) {
		if bad[api] {
			return
		}
		ps, why := e.paths(neg, func() []*cval {
			var as []*cval
			for _, q := range neg.Params {
				if _, ok := q.Type().Underlying().(*types.Pointer); ok {
					as = append(as, mk())
				} else {
					as = append(as, ckInt(api, q.Type()))
				}
			}
			return as
		})
		c.count("negotiations", 1)
		what := fmt.Sprintf("API %d", api)
		if why != "" {
			bad[api] = true
			c.fail("undecided", what, neg.Pos(), nil, "%s: the version chosen for API %d %s cannot be decided: %s", fname(neg), api, desc, why)
			return
		}
		for _, cp := range ps {
			if cp.panic != "" || cp.ret.k != cInt || cp.ret.i != want {
				bad[api] = true
				c.fail("highest-common", what, neg.Pos(), nil, "%s chooses %s%s for API %d %s; implemented are %v, so the highest common version is %d", fname(neg), cp.ret, cp.panic, api, desc, tab[api], want)
				return
			}
		}
	}
	for _, api := range sortedInts(apis) {
		impl := tab[api]
		hi := int64(1)
		for _, v := range impl {
			if v+1 > hi {
				hi = v + 1
			}
		}
		other := api + 1000
		for lo := int64(0); lo <= hi; lo++ {
			for up := lo; up <= hi; up++ {
				want := int64(0)
				for _, v := range impl {
					if lo <= v && v <= up && v > want {
						want = v
					}
				}
				lo, up := lo, up
				check(api, want, fmt.Sprintf("advertised as %d to %d", lo, up), func() *cval {
					return broker(entry(other, 0, hi), entry(api, lo, up), entry(other+1, 0, hi))
				})
			}
		}
		check(api, 0, "not advertised", func() *cval { return broker(entry(other, 0, hi)) })
		check(api, 0, "before anything was advertised", func() *cval { return broker() })
	}
	c.count("apis", len(apis))
	c.floor("apis", 20)
	c.floor("negotiations", 200)
	c.cfuncs(e)
	c.assumef("the negotiation only compares versions, so ranges reaching beyond the highest implemented version plus one behave like the one ending there")
}

// ---------------------------------------------------------------- C38

var aclTables = map[string]map[int64][]string{
	"AclsResourceType":   {0: {"UNKNOWN"}, 1: {"ANY"}, 2: {"TOPIC"}, 3: {"GROUP"}, 4: {"CLUSTER", "BROKER"}, 5: {"TRANSACTIONAL_ID"}, 6: {"DELEGATION_TOKEN"}, 7: {"USER"}},
	"AclsPatternType":    {0: {"UNKNOWN"}, 1: {"ANY"}, 2: {"MATCH"}, 3: {"LITERAL"}, 4: {"PREFIXED"}},
	"AclsOperation":      {0: {"UNKNOWN"}, 1: {"ANY"}, 2: {"ALL"}, 3: {"READ"}, 4: {"WRITE"}, 5: {"CREATE"}, 6: {"DELETE"}, 7: {"ALTER"}, 8: {"DESCRIBE"}, 9: {"CLUSTER_ACTION"}, 10: {"DESCRIBE_CONFIGS"}, 11: {"ALTER_CONFIGS"}, 12: {"IDEMPOTENT_WRITE"}},
	"AclsPermissionType": {0: {"UNKNOWN"}, 1: {"ANY"}, 2: {"DENY"}, 3: {"ALLOW"}},
}

func ruleC38(c *Ctx) {
	p := c.p
	c.rule("name-of-code", "the text of each protocol code is the protocol's name for it")
	c.rule("code-of-name", "parsing a protocol name, in either case, gives that name's code")
	c.rule("round-trip", "parsing the text of a code gives the code again, for text made by String and by MarshalText")
	c.rule("unknown-text", "text that is no name and no number of a code is an error")
	c.rule("unknown-code", "a code the protocol does not have gets no name of a known code other than unknown")
	e := newCEval(p)
	for _, tn := range sortedKeys(aclTables) {
		nt := p.typ(tn)
		if nt == nil {
			c.fail("anchor", tn, token.NoPos, nil, "the type %s was not found", tn)
			continue
		}
		str, mar, un := p.method(tn, "String"), p.method(tn, "MarshalText"), p.method(tn, "UnmarshalText")
		one := func(fn *ssa.Function, in *cval) (*cval, string) {
			ps, why := e.paths(fn, func() []*cval { return []*cval{in} })
			c.count("evaluations", 1)
			if why != "" {
				return nil, why
			}
			if len(ps) != 1 || ps[0].panic != "" {
				return nil, fmt.Sprintf("%d results %s", len(ps), ps[0].panic)
			}
			return ps[0].ret, ""
		}
		text := func(fn *ssa.Function, in *cval) (*cval, string) {
			v, why := one(fn, in)
			if why == "" && v.k == cTuple && len(v.a) == 2 {
				if v.a[1].k != cNil {
					return nil, "gives the error " + v.a[1].String()
				}
				v = v.a[0]
			}
			return v, why
		}
		parse := func(in *cval) (code *cval, errv *cval, why string) {
			cell := &ccell{ckInt(-77, nt)}
			v, why := one1(e, un, func() []*cval { cell.v = ckInt(-77, nt); return []*cval{{k: cPtr, cell: cell}, in} })
			c.count("evaluations", 1)
			if why != "" {
				return nil, nil, why
			}
			return cell.v, v, ""
		}
		tab := aclTables[tn]
		codes := map[int64]bool{}
		for k := range tab {
			codes[k] = true
		}
		for _, k := range sortedInts(codes) {
			what := fmt.Sprintf("%s %d", tn, k)
			for _, fn := range []*ssa.Function{str, mar} {
				if fn == nil || fn.Blocks == nil {
					continue
				}
				v, why := text(fn, ckInt(k, nt))
				if why != "" {
					c.fail("undecided", what+"/"+fn.Name(), fn.Pos(), nil, "%s of %s cannot be decided: %s", fname(fn), what, why)
					continue
				}
				if v.k != cStr || !contains(tab[k], v.s) {
					c.fail("name-of-code", what+"/"+fn.Name(), fn.Pos(), nil, "%s of %s is %s; the protocol names it %s", fname(fn), what, v, tab[k][0])
				}
				if un != nil && v.k == cStr {
					code, er, why := parse(ckStr(v.s))
					if why != "" || er.k != cNil || code.k != cInt || code.i != k {
						c.fail("round-trip", what+"/"+fn.Name(), un.Pos(), nil, "the text %s of %s is parsed as %s (error %s)%s", v, what, code, er, why)
					}
				}
			}
			if un == nil {
				continue
			}
			for _, n := range tab[k] {
				for _, t := range []string{n, strings.ToLower(n)} {
					code, er, why := parse(ckStr(t))
					switch {
					case why != "":
						c.fail("undecided", what+"/"+t, un.Pos(), nil, "parsing %q cannot be decided: %s", t, why)
					case er.k != cNil && t == n && n == tab[k][0]:
						c.fail("code-of-name", what+"/"+t, un.Pos(), nil, "%s rejects %q, the protocol's name of %s", fname(un), t, what)
					case er.k == cNil && (code.k != cInt || code.i != k):
						c.fail("code-of-name", what+"/"+t, un.Pos(), nil, "%s parses %q as %s instead of %d", fname(un), t, code, k)
					}
				}
			}
			code, er, why := parse(ckStr(strconv.FormatInt(k, 10)))
			if why == "" && er.k == cNil && (code.k != cInt || code.i != k) {
				c.fail("code-of-name", what+"/digits", un.Pos(), nil, "%s parses \"%d\" as %s", fname(un), k, code)
			}
		}
		if un != nil {
			code, er, why := parse(&cval{k: cOther})
			unknown := why == "" && code.k == cInt && code.i == 0
			if why != "" {
				c.fail("undecided", tn+"/other", un.Pos(), nil, "parsing unknown text cannot be decided: %s", why)
			} else if er.k == cNil && !unknown {
				c.fail("unknown-text", tn, un.Pos(), nil, "%s accepts text that names no code (as %s)", fname(un), code)
			}
		}
		if str != nil {
			v, why := text(str, &cval{k: cOther})
			if why == "" && v.k == cStr {
				for k, ns := range tab {
					if k != 0 && contains(ns, v.s) {
						c.fail("unknown-code", tn, str.Pos(), nil, "%s names unknown codes %q", fname(str), v.s)
					}
				}
			}
		}
		c.count("types", 1)
	}
	c.floor("types", 4)
	c.floor("evaluations", 120)
	c.cfuncs(e)
}

// one1: the single result, or the error results joined
func one1(e *CEval, fn *ssa.Function, mk func() []*cval) (*cval, string) {
	ps, why := e.paths(fn, mk)
	if why != "" {
		return nil, why
	}
	if len(ps) != 1 || ps[0].panic != "" {
		return nil, fmt.Sprintf("%d results %s", len(ps), ps[0].panic)
	}
	return ps[0].ret, ""
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C37

var codecs = []struct {
	name string
	code int64
	pkg  string
}{{"none", 0, ""}, {"gzip", 1, "gzip"}, {"snappy", 2, "snappy"}, {"lz4", 3, "lz4"}}

// codecCalls: the codec packages called on a path
func codecCalls(cp cpath) map[string]bool {
	r := map[string]bool{}
	var walk func(v *cval, d int)
	add := func(n string) {
		for _, k := range []string{"gzip", "snappy", "lz4", "zstd", "flate", "zlib"} {
			if strings.Contains(n, k) {
				r[k] = true
			}
		}
	}
	walk = func(v *cval, d int) {
		if v == nil || d > 6 {
			return
		}
		if v.k == cApp {
			add(v.s)
		}
		for _, a := range v.a {
			walk(a, d+1)
		}
	}
	for _, k := range cp.calls {
		add(k.s)
	}
	walk(cp.ret, 0)
	return r
}

func ruleC37(c *Ctx) {
	p := c.p
	c.rule("codec-of-name", "each compression name selects the codec of that name, and an unknown name selects none")
	c.rule("name-of-code", "each attribute code is named after the codec the protocol assigns to it, in both directions")
	c.rule("decoder-of-code", "decompressing data of each attribute code uses exactly the decoder of that code's codec; an unknown code is an error")
	c.rule("mask", "a compression code is taken from the three low bits of the attributes")
	c.rule("configured", "the producer uses the code of the configured name and rejects unknown names")
	e := newCEval(p)
	ct := p.typ("CompressType")
	if ct == nil {
		c.fail("anchor", "CompressType", token.NoPos, nil, "the type CompressType was not found")
		return
	}
	nameOf := map[int64]string{}
	for _, k := range codecs {
		nameOf[k.code] = k.name
	}
	// codec of name
	if nc := c.anchor("NewCompressor"); nc != nil {
		for _, k := range codecs {
			v, why := one1(e, nc, func() []*cval { return []*cval{ckStr(k.name)} })
			what := "NewCompressor " + k.name
			if why != "" {
				c.fail("undecided", what, nc.Pos(), nil, "%s: %s", what, why)
				continue
			}
			c.count("codecs", 1)
			if v.k != cIface {
				c.fail("codec-of-name", what, nc.Pos(), nil, "NewCompressor(%q) gives %s", k.name, v)
				continue
			}
			m := p.ssa.LookupMethod(v.t, p.core.Pkg, "Compress")
			if m == nil || m.Blocks == nil {
				continue
			}
			ps, why := e.paths(m, func() []*cval { return []*cval{v.a[0], {k: cOther}} })
			if why != "" {
				c.fail("undecided", what, m.Pos(), nil, "%s: %s", fname(m), why)
				continue
			}
			for _, cp := range ps {
				cs := codecCalls(cp)
				want := map[string]bool{}
				if k.pkg != "" {
					want[k.pkg] = true
				}
				if fmt.Sprint(cs) != fmt.Sprint(want) {
					c.fail("codec-of-name", what, m.Pos(), nil, "NewCompressor(%q) selects %s, which compresses with %v", k.name, fname(m), cs)
				}
				if cp.ret.k == cTuple && len(cp.ret.a) == 2 && cp.ret.a[1].k == cNil && k.pkg != "" {
					// success: the whole value went through the codec and was flushed, and the result is returned
					wrote, closed := k.pkg == "snappy", k.pkg == "snappy"
					for _, q := range cp.calls {
						last := q.s[strings.LastIndex(q.s, ".")+1:]
						switch last {
						case "Write":
							wrote = wrote || len(q.a) > 1 && q.a[1].k == cOther
						case "Close":
							closed = wrote
						case "Bytes":
							if !closed && k.pkg != "snappy" {
								wrote = false
							}
						case "Copy", "ReadFrom":
							wrote = true
						}
					}
					d := cp.ret.a[0]
					if !wrote || !closed || d.k == cNil || d.k == cSlice && len(d.sub) == 0 {
						c.fail("codec-of-name", what+"/lost", m.Pos(), nil, "%s can report success without having compressed, flushed and returned the whole value (it returns %s)", fname(m), d)
					}
				}
				if k.pkg == "" && cp.ret.k == cTuple && len(cp.ret.a) == 2 && cp.ret.a[0].k != cOther {
					c.fail("codec-of-name", what+"/identity", m.Pos(), nil, "%s does not return its input", fname(m))
				}
			}
		}
		v, why := one1(e, nc, func() []*cval { return []*cval{{k: cOther}} })
		if why != "" || v.k != cNil {
			c.fail("codec-of-name", "NewCompressor other", nc.Pos(), nil, "NewCompressor of an unknown name gives %s%s", v, why)
		}
	}
	// code <-> name
	if str := p.method("CompressType", "String"); str != nil && str.Blocks != nil {
		for code := int64(0); code < 8; code++ {
			v, why := one1(e, str, func() []*cval { return []*cval{ckInt(code, ct)} })
			what := fmt.Sprintf("CompressType %d", code)
			if why != "" {
				c.fail("undecided", what, str.Pos(), nil, "%s: %s", what, why)
				continue
			}
			c.count("codes", 1)
			if n, ok := nameOf[code]; ok && (v.k != cStr || v.s != n) {
				c.fail("name-of-code", what, str.Pos(), nil, "code %d is named %s; the protocol assigns it to %s", code, v, n)
			} else if !ok && v.k == cStr {
				for _, k := range codecs {
					if v.s == k.name {
						c.fail("name-of-code", what, str.Pos(), nil, "code %d is named %s", code, v)
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		s := f.Signature
		if f.Pkg != p.core || f.Parent() != nil || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !isStringT(s.Params().At(0).Type()) || !isNamed(s.Results().At(0).Type(), "CompressType") {
			continue
		}
		for _, k := range codecs {
			v, why := one1(e, f, func() []*cval { return []*cval{ckStr(k.name)} })
			if why != "" || v.k != cTuple || v.a[0].k != cInt || v.a[0].i != k.code || v.a[1].k != cNil {
				c.fail("name-of-code", fname(f)+" "+k.name, f.Pos(), nil, "%s(%q) gives %s%s instead of %d", fname(f), k.name, v, why, k.code)
			}
			c.count("codes", 1)
		}
		v, why := one1(e, f, func() []*cval { return []*cval{{k: cOther}} })
		if why != "" || v.k != cTuple || v.a[1].k == cNil {
			c.fail("name-of-code", fname(f)+" other", f.Pos(), nil, "%s accepts an unknown name", fname(f))
		}
	}
	// decoders: functions of a code and a reader or bytes giving bytes and an error
	nd := 0
	for _, f := range p.funcs {
		s := f.Signature
		if f.Pkg != p.core || f.Parent() != nil || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 2 || !isErrT(s.Results().At(1).Type()) {
			continue
		}
		ci := -1
		for i := 0; i < 2; i++ {
			if k := intKind(s.Params().At(i).Type()); k == types.Int8 || k == types.Uint8 || k == types.Int16 || k == types.Uint16 || k == types.Int || isNamed(s.Params().At(i).Type(), "CompressType") {
				ci = i
			}
		}
		if ci < 0 || !p.reachesPkg(f, []string{"gzip.NewReader", "snappy.Decode", "lz4.NewReader"}) {
			continue
		}
		nd++
		for code := int64(0); code < 8; code++ {
			ps, why := e.paths(f, func() []*cval {
				as := []*cval{{k: cUnk}, {k: cUnk}}
				as[ci] = ckInt(code, s.Params().At(ci).Type())
				return as
			})
			what := fmt.Sprintf("%s code %d", fname(f), code)
			if why != "" {
				c.fail("undecided", what, f.Pos(), nil, "%s: %s", what, why)
				continue
			}
			c.count("decoders", 1)
			for _, cp := range ps {
				if cp.ret.k != cTuple || len(cp.ret.a) != 2 {
					continue
				}
				cs := codecCalls(cp)
				name, known := nameOf[code]
				failed := cp.ret.a[1].k == cErr || cp.ret.a[1].k == cApp
				if !known {
					if !failed {
						c.fail("decoder-of-code", what, f.Pos(), nil, "%s returns %s without an error for the unknown compression code %d", fname(f), cp.ret.a[0], code)
					}
					continue
				}
				want := ""
				for _, k := range codecs {
					if k.code == code {
						want = k.pkg
					}
				}
				for k := range cs {
					if k != want {
						c.fail("decoder-of-code", what, f.Pos(), nil, "%s decodes code %d (%s) with %s", fname(f), code, name, k)
					}
				}
				if d := cp.ret.a[0]; cp.ret.a[1].k == cNil && (d.k == cNil || d.k == cSlice && len(d.sub) == 0) {
					c.fail("decoder-of-code", what+"/lost", f.Pos(), nil, "%s reports success for code %d (%s) without returning data", fname(f), code, name)
				}
				if !failed && want != "" && !cs[want] {
					c.fail("decoder-of-code", what, f.Pos(), nil, "%s returns data of code %d (%s) without using its decoder", fname(f), code, name)
				}
			}
		}
	}
	c.count("decoding functions", nd)
	c.floor("decoding functions", 1)
	ruleCompressMask(c, ct)
	ruleCompressConfig(c, ct)
	c.cfuncs(e)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// reachesPkg: f (or what it calls in the module) calls one of the named functions
func (p *Prog) reachesPkg(f *ssa.Function, names []string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(*ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := k.Common().StaticCallee()
				if h == nil {
					continue
				}
				for _, n := range names {
					if strings.HasSuffix(funcName(h), n) {
						return true
					}
				}
				if p.inModule(h) && h.Blocks != nil && walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// ruleCompressMask: every value that becomes a compression code comes from attributes masked with 7, from a constant, or from a CompressType
func ruleCompressMask(c *Ctx, ct *types.Named) {
	p := c.p
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], k)
					}
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value, at ssa.Instruction, d int)
	back = func(v ssa.Value, at ssa.Instruction, d int) {
		if d > 12 || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return
		case *ssa.Convert:
			back(x.X, x, d+1)
			return
		case *ssa.ChangeType:
			if types.Identical(x.X.Type(), ct) {
				return
			}
			back(x.X, x, d+1)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e, at, d+1)
			}
			return
		case *ssa.BinOp:
			if x.Op == token.AND {
				n, ok := constInt(x.Y)
				if !ok {
					n, ok = constInt(x.X)
				}
				if ok {
					c.count("masks", 1)
					if n != 7 {
						c.fail("mask", fname(x.Parent()), instrPos(x), nil, "%s takes the compression code with the mask %#b; the protocol has it in the three low bits of the attributes", fname(x.Parent()), n)
					}
				}
				return
			}
		case *ssa.Parameter:
			f := x.Parent()
			for i, q := range f.Params {
				if q != x {
					continue
				}
				for _, k := range callers[f] {
					if i < len(k.Common().Args) {
						back(k.Common().Args[i], k, d+1)
					}
				}
			}
			return
		}
		if types.Identical(v.Type(), ct) {
			return
		}
		c.fail("mask", fname(at.Parent()), instrPos(at), nil, "%s uses the attributes as a compression code without masking the three low bits", fname(at.Parent()))
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Convert:
					if types.Identical(x.Type(), ct) && !types.Identical(x.X.Type(), ct) {
						back(x.X, x, 0)
					}
				case *ssa.ChangeType:
					if types.Identical(x.Type(), ct) && !types.Identical(x.X.Type(), ct) {
						back(x.X, x, 0)
					}
				}
			}
		}
	}
	c.floor("masks", 2)
}

// ruleCompressConfig: the code stored in a producer is that of the configured name
func ruleCompressConfig(c *Ctx, ct *types.Named) {
	p := c.p
	codeOf := map[string]int64{}
	for _, k := range codecs {
		codeOf[k.name] = k.code
	}
	n := 0
	for _, f := range p.funcs {
		if f.Pkg != p.core || !storesFieldOf(f, ct) {
			continue
		}
		n++
		f := f
		cfg := &Config{Merge: true, PartAll: true, PartFacts: func(t *Term) bool { return eqConst(t) != nil }}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "store" && ev.Loc.Op == "fld" && ev.Site != nil {
				s, ok := ev.Site.(*ssa.Store)
				if !ok || !types.Identical(s.Val.Type(), ct) {
					return
				}
				c.count("configured codes", 1)
				v, isC := ev.Val.intVal()
				name := ""
				for t, b := range st.facts {
					if b {
						if s := eqConst(t); s != nil {
							if q, ok := s.strVal(); ok {
								if _, ok := codeOf[q]; ok {
									name = q
								}
							}
						}
					}
				}
				if !isC {
					if !strings.Contains(ev.Val.String(), "CompressType") {
						c.fail("configured", fname(f)+"/value", instrPos(ev.Site), st.path(), "the compression code is not one of the protocol's constants: %s", ev.Val)
					}
					return
				}
				if name == "" {
					if v != 0 {
						c.fail("configured", fmt.Sprintf("%s/%d", fname(f), v), instrPos(ev.Site), st.path(), "compression code %d is chosen without a configured name that calls for it", v)
					}
				} else if codeOf[name] != v {
					c.fail("configured", fname(f)+"/"+name, instrPos(ev.Site), st.path(), "compression name %q is given code %d instead of %d", name, v, codeOf[name])
				}
				st.set("code", tInt(v))
				if name != "" {
					st.setFlag("named", true)
				}
			}
			if ev.Kind == "return" && ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Res.Args) == 2 {
				if nl, kn := st.nilness(ev.Res.Args[1]); kn && nl && !st.flag("named") {
					c.fail("configured", fname(f)+"/unknown", instrPos(ev.Site), st.path(), "%s succeeds although no compression name was recognised", fname(f))
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("configuring functions", n)
	c.floor("configuring functions", 1)
	c.floor("configured codes", 1)
}

// eqConst: t compares something with a string constant
func eqConst(t *Term) *Term {
	if t.Op == "eq" && len(t.Args) == 2 {
		for _, a := range t.Args {
			if a.isConst() {
				if _, ok := a.strVal(); ok {
					return a
				}
			}
		}
	}
	return nil
}

func storesFieldOf(f *ssa.Function, t types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && types.Identical(s.Val.Type(), t) {
				if _, ok := s.Addr.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

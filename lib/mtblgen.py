"""A small stand-in for mlir-tblgen (not installed): reads llvm-tblgen's JSON
dump of the repository's TableGen files and emits the op classes, the dialect
and the DRR rewriters, following mlir-tblgen's semantics."""
import json, re, subprocess, sys

LLVM_INC = "/usr/lib/llvm-18/include"


class Unsupported(Exception):
    pass


def dump(td, incs):
    p = subprocess.run(["llvm-tblgen-18", "--dump-json", "-I", LLVM_INC] + ["-I" + i for i in incs] + [td], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Unsupported("llvm-tblgen: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def isa(rec, cls):
    return cls in rec["!superclasses"]


def camel(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def subst(tmpl, **kw):
    """Replaces $_self, $_builder, $_loc, $_op, $_ctxt and positional $0.. ."""
    pos = kw.pop("pos", [])

    def rep(m):
        k = m.group(1)
        if k.isdigit():
            return pos[int(k)] if int(k) < len(pos) else m.group(0)
        return kw.get(k[1:], m.group(0))
    return re.sub(r"\$(_[a-z]+|\d+)", rep, tmpl)


class TD:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k["def"] if isinstance(k, dict) else k]

    def pred(self, p):
        """Predicate record -> C++ condition template (with $_self etc)."""
        r = self[p]
        kids = r.get("children") or []
        if isa(r, "CPred"):
            return r["predExpr"]
        if isa(r, "SubstLeaves"):
            return self.pred(kids[0]).replace(r["pattern"], r["replacement"])
        if isa(r, "Concat"):
            return r["prefix"] + self.pred(kids[0]) + r["suffix"]
        c = ["(" + self.pred(k) + ")" for k in kids]
        if isa(r, "And"):
            return "(" + (" && ".join(c) or "true") + ")"
        if isa(r, "Or"):
            return "(" + (" || ".join(c) or "false") + ")"
        if isa(r, "Neg"):
            return "!" + c[0]
        raise Unsupported("predicate " + r["!name"])

    def cond(self, constraint):
        r = constraint if "!name" in constraint else self[constraint]
        return self.pred(r["predicate"])


class OpDef:
    def __init__(self, td, rec):
        self.td, self.rec, self.name = td, rec, rec["!name"]
        self.cls = self.name.split("_", 1)[-1]
        self.ns = rec["cppNamespace"] or td[rec["opDialect"]]["cppNamespace"]
        if not self.ns.startswith("::"):
            self.ns = "::" + self.ns
        dialect = td[rec["opDialect"]]
        self.opname = dialect["name"] + "." + rec["opName"]
        self.q = self.ns + "::" + self.cls
        self.args = []   # (kind, name, record, variadic)
        for a, n in rec["arguments"]["args"]:
            r = td[a]
            if isa(r, "AttrConstraint"):
                self.args.append(("attr", n, r, False))
            else:
                var = isa(r, "Variadic") or isa(r, "Optional")
                self.args.append(("operand", n, td[r["baseType"]] if var else r, var))
        self.results = []
        for a, n in rec["results"]["args"]:
            r = td[a]
            var = isa(r, "Variadic") or isa(r, "Optional")
            self.results.append((n, td[r["baseType"]] if var else r, var))
        self.operands = [a for a in self.args if a[0] == "operand"]
        self.attrs = [a for a in self.args if a[0] == "attr"]
        self.traits = set()

        def trait(t):
            r = td[t]
            if isa(r, "TraitList"):
                for x in r["traits"]:
                    trait(x)
            else:
                self.traits.add(r["!name"])
        for t in rec["traits"] or []:
            trait(t)

    def var_operand(self):
        return any(a[3] for a in self.operands)

    def var_result(self):
        return any(r[2] for r in self.results)


def storage(rec):
    return rec["storageType"].strip()


def rettype(rec):
    return rec["returnType"].strip()


def default_attr(rec, builder):
    return subst(rec["constBuilderCall"], builder=builder, pos=[rec["defaultValue"]])


def op_decl(o):
    traits = ["::mlir::OpTrait::ZeroRegions", "::mlir::OpTrait::ZeroSuccessors"]
    nr, no = len(o.results), len(o.operands)
    if o.var_result():
        traits.append("::mlir::OpTrait::VariadicResults")
    elif nr == 0:
        traits.append("::mlir::OpTrait::ZeroResults")
    elif nr == 1:
        traits += ["::mlir::OpTrait::OneResult", "::mlir::OpTrait::OneTypedResult<::mlir::Type>::Impl"]
    else:
        traits.append("::mlir::OpTrait::NResults<%d>::Impl" % nr)
    if o.var_operand():
        traits.append("::mlir::OpTrait::VariadicOperands")
    elif no == 0:
        traits.append("::mlir::OpTrait::ZeroOperands")
    elif no == 1:
        traits.append("::mlir::OpTrait::OneOperand")
    else:
        traits.append("::mlir::OpTrait::NOperands<%d>::Impl" % no)
    traits.append("::mlir::OpTrait::OpInvariants")
    known = dict(SameOperandsAndResultType="::mlir::OpTrait::SameOperandsAndResultType", ConstantLike="::mlir::OpTrait::ConstantLike",
                 NoMemoryEffect="::mlir::MemoryEffectOpInterface::Trait",
                 ConditionallySpeculatable="::mlir::ConditionallySpeculatable::Trait",
                 AlwaysSpeculatableImplTrait="::mlir::OpTrait::AlwaysSpeculatableImplTrait")
    for t in sorted(o.traits):
        if t in known:
            traits.append(known[t])
        elif t in ("FirstAttrDerivedResultType",):
            traits.append("::mlir::OpTrait::FirstAttrDerivedResultType")
        else:
            raise Unsupported("trait %s of %s" % (t, o.name))
    L = ["class %s;" % o.cls, "class %sFoldAdaptor {" % o.cls, "public:",
         "  %sFoldAdaptor(::llvm::ArrayRef<::mlir::Attribute> v, ::mlir::Operation* o) : v_(v), o_(o) {}" % o.cls,
         "  ::llvm::ArrayRef<::mlir::Attribute> getOperands() { return v_; }",
         "  ::mlir::DictionaryAttr getAttributes() { return o_->getAttrDictionary(); }"]
    if not o.var_operand():
        for i, a in enumerate(o.operands):
            L.append("  ::mlir::Attribute get%s() { return v_[%d]; }" % (camel(a[1]), i))
    for a in o.attrs:
        L.append("  %s get%sAttr() { return o_->getAttrOfType<%s>(\"%s\"); }" % (storage(a[2]), camel(a[1]), storage(a[2]), a[1]))
    L += ["private:", "  ::llvm::ArrayRef<::mlir::Attribute> v_; ::mlir::Operation* o_;", "};"]
    L += ["class %s : public ::mlir::Op<%s, %s> {" % (o.cls, o.cls, ", ".join(traits)), "public:", "  using Op::Op;", "  using Op::print;",
          "  using FoldAdaptor = %sFoldAdaptor;" % o.cls,
          "  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { static ::llvm::StringRef n[] = {%s}; return ::llvm::ArrayRef<::llvm::StringRef>(n, (size_t)%d); }" %
          (", ".join('::llvm::StringRef("%s")' % a[1] for a in o.attrs) or '::llvm::StringRef()', len(o.attrs)),
          "  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral(\"%s\"); }" % o.opname]
    # operand / result segments (at most one variadic group)
    def seg(items, what):
        b = []
        nv = sum(1 for x in items if x)
        if nv > 1:
            raise Unsupported("two variadic groups in " + o.name)
        b.append("  std::pair<unsigned, unsigned> getODS%sIndexAndLength(unsigned i) {" % what)
        b.append("    static const bool v[] = {%s};" % (", ".join("true" if x else "false" for x in items) or "false"))
        b.append("    int rest = (int)getOperation()->getNum%ss() - %d; unsigned s = 0;" % (what, len(items) - nv))
        b.append("    for (unsigned k = 0; k < i; k++) s += v[k] ? rest : 1;")
        b.append("    return {s, v[i] ? rest : 1};\n  }")
        return b
    L += seg([a[3] for a in o.operands], "Operand") + seg([r[2] for r in o.results], "Result")
    L += ["  ::mlir::Operation::operand_range getODSOperands(unsigned i) { auto r = getODSOperandIndexAndLength(i); return {std::next(getOperation()->operand_begin(), r.first), std::next(getOperation()->operand_begin(), r.first + r.second)}; }",
          "  ::mlir::Operation::result_range getODSResults(unsigned i) { auto r = getODSResultIndexAndLength(i); return {std::next(getOperation()->result_begin(), r.first), std::next(getOperation()->result_begin(), r.first + r.second)}; }"]
    for i, a in enumerate(o.operands):
        if a[3]:
            L.append("  ::mlir::Operation::operand_range get%s() { return getODSOperands(%d); }" % (camel(a[1]), i))
        else:
            L.append("  ::mlir::Value get%s() { return *getODSOperands(%d).begin(); }" % (camel(a[1]), i))
    for i, r in enumerate(o.results):
        if r[2]:
            L.append("  ::mlir::Operation::result_range get%s() { return getODSResults(%d); }" % (camel(r[0]), i))
        else:
            L.append("  ::mlir::Value get%s() { return *getODSResults(%d).begin(); }" % (camel(r[0]), i))
    for k, n, r, _ in o.attrs:
        st, rt = storage(r), rettype(r)
        L.append("  %s get%sAttr() { return getOperation()->getAttrOfType<%s>(\"%s\"); }" % (st, camel(n), st, n))
        conv = subst(r["convertFromStorage"], self="a")
        L.append("  %s get%s() { auto a = get%sAttr(); %sreturn %s; }" % (rt, camel(n), camel(n),
                 ("if (!a) { ::mlir::Builder b(getContext()); a = %s; } " % default_attr(r, "b")) if r.get("defaultValue") and not (r["isOptional"] and not isa(r, "DefaultValuedOptionalAttr")) else "", conv))
        L.append("  void set%sAttr(%s a) { getOperation()->setAttr(\"%s\", a); }" % (camel(n), st, n))
    # builders
    L.append("  static void build(::mlir::OpBuilder&, ::mlir::OperationState& s, ::mlir::TypeRange t, ::mlir::ValueRange v, ::llvm::ArrayRef<::mlir::NamedAttribute> a = {}) { s.addTypes(t); s.addOperands(v); s.addAttributes(a); }")
    if o.results and "SameOperandsAndResultType" in o.traits:
        L.append("  static void build(::mlir::OpBuilder&, ::mlir::OperationState& s, ::mlir::ValueRange v, ::llvm::ArrayRef<::mlir::NamedAttribute> a = {}) { s.addTypes({v[0].getType()}); s.addOperands(v); s.addAttributes(a); }")
    if o.results and "FirstAttrDerivedResultType" in o.traits:
        L.append("  static void build(::mlir::OpBuilder&, ::mlir::OperationState& s, ::mlir::ValueRange v, ::llvm::ArrayRef<::mlir::NamedAttribute> a) { auto x = a.front().getValue(); auto t = ::llvm::dyn_cast<::mlir::TypeAttr>(x); s.addTypes({t ? t.getValue() : ::llvm::cast<::mlir::TypedAttr>(x).getType()}); s.addOperands(v); s.addAttributes(a); }")

    def params(unwrapped):
        ps, body = [], []
        for k, n, r, var in o.args:
            if k == "operand":
                ps.append(("::mlir::ValueRange " if var else "::mlir::Value ") + n)
                body.append("s.addOperands(%s);" % n)
            else:
                if unwrapped and rettype(r) != storage(r) and "$0" in r["constBuilderCall"] and not r["isOptional"]:
                    ps.append(rettype(r) + " " + n)
                    body.append('s.addAttribute("%s", %s);' % (n, subst(r["constBuilderCall"], builder="b", pos=[n])))
                else:
                    ps.append(storage(r) + " " + n)
                    body.append('if (%s) s.addAttribute("%s", %s);' % (n, n, n))
        return ps, " ".join(body)
    seen = set()
    for unw in (False, True):
        ps, body = params(unw)
        key = tuple(x.rsplit(" ", 1)[0] for x in ps)
        if key in seen:
            continue
        seen.add(key)
        if not (o.args == [] or (len(o.operands) == 1 and o.operands[0][3] and not o.attrs)):
            L.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, ::mlir::TypeRange t, %s) { s.addTypes(t); %s }" % (", ".join(ps), body))
            if o.results and not o.var_result():
                L.append("  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, %s, %s) { %s %s }" %
                         (", ".join("::mlir::Type t%d" % i for i in range(len(o.results))), ", ".join(ps), " ".join("s.addTypes(t%d);" % i for i in range(len(o.results))), body))
    for b in o.rec["builders"] or []:
        br = o.td[b]
        ps = ", ".join("%s %s" % (t if isinstance(t, str) else t["printable"], n) for t, n in br["dagParams"]["args"])
        L.append("  static void build(::mlir::OpBuilder& odsBuilder, ::mlir::OperationState& odsState, %s)%s" % (ps, (" {%s}" % br["body"].replace("$_builder", "odsBuilder").replace("$_state", "odsState")) if br["body"] else ";"))
    if "ConstantLike" in o.traits:
        pass
    if "NoMemoryEffect" in o.traits:
        L.append("  void getEffects(::llvm::SmallVectorImpl<::mlir::SideEffects::EffectInstance<::mlir::MemoryEffects::Effect>>&) {}")
    if o.rec.get("hasFolder"):
        L.append("  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);")
    if o.rec.get("hasVerifier"):
        L.append("  ::mlir::LogicalResult verify();")
    if o.rec.get("hasCanonicalizer"):
        L.append("  static void getCanonicalizationPatterns(::mlir::RewritePatternSet&, ::mlir::MLIRContext*);")
    L.append("  ::mlir::LogicalResult verifyInvariantsImpl();")
    L.append("  ::mlir::LogicalResult verifyInvariants() { return verifyInvariantsImpl()%s; }" % (".succeeded() && verify().succeeded() ? ::mlir::success() : ::mlir::failure()" if o.rec.get("hasVerifier") else ""))
    if o.rec.get("extraClassDeclaration"):
        L.append(o.rec["extraClassDeclaration"])
    L.append("};")
    return "\n".join(L)


def op_def(o):
    L = ["::mlir::LogicalResult %s::verifyInvariantsImpl() {" % o.cls]
    for k, n, r, _ in o.attrs:
        L.append('  { ::mlir::Attribute a = getOperation()->getAttr("%s"); %s if (a && !(%s)) return emitOpError("attribute \'%s\' failed to satisfy constraint"); }' %
                 (n, "" if r["isOptional"] or r.get("defaultValue") else 'if (!a) return emitOpError("requires attribute \'%s\'");' % n, subst(o.td.cond(r), self="a", op="(*getOperation())"), n))
    for i, (k, n, r, _) in enumerate(o.operands):
        L.append('  for (auto v : getODSOperands(%d)) { ::mlir::Type t = v.getType(); (void)t; if (!(%s)) return emitOpError("operand \'%s\' has an unsupported type"); }' % (i, subst(o.td.cond(r), self="t"), n))
    for i, (n, r, _) in enumerate(o.results):
        L.append('  for (auto v : getODSResults(%d)) { ::mlir::Type t = v.getType(); (void)t; if (!(%s)) return emitOpError("result \'%s\' has an unsupported type"); }' % (i, subst(o.td.cond(r), self="t"), n))
    L.append("  return ::mlir::success();\n}")
    return "\n".join(L)


def wrap_ns(ns, body):
    parts = [x for x in ns.split("::") if x]
    return "".join("namespace %s {\n" % p for p in parts) + body + "\n" + "".join("}  // %s\n" % p for p in parts)


def gen_ops(d, dialect):
    td = TD(d)
    ops = [OpDef(td, d[n]) for n in d["!instanceof"]["Op"] if d[n]["opDialect"] and d[n]["opDialect"]["def"] == dialect and not d[n]["!anonymous"]]
    ns = td[dialect]["cppNamespace"]
    h = "#undef GET_OP_CLASSES\n" + wrap_ns(ns, "\n".join(op_decl(o) for o in ops))
    c = "#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n%s\n#endif\n#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n%s\n#endif\n" % (
        ",\n".join(o.q for o in ops), wrap_ns(ns, "\n".join(op_def(o) for o in ops)))
    return h, c


def gen_dialect(d, dialect):
    r = d[dialect]
    ns = r["cppNamespace"]
    name = dialect
    if dialect.endswith("_Dialect"):
        name = {"TFL_Dialect": "TensorFlowLiteDialect", "TF_Dialect": "TensorFlowDialect"}[dialect]
    h = """class %(n)s : public ::mlir::Dialect {
  explicit %(n)s(::mlir::MLIRContext* context);
  void initialize();
  friend class ::mlir::MLIRContext;
public:
  ~%(n)s() override;
  static constexpr ::llvm::StringLiteral getDialectNamespace() { return ::llvm::StringLiteral("%(d)s"); }
  %(m)s
  %(a)s
  %(x)s
};""" % dict(n=name, d=r["name"], m="::mlir::Operation* materializeConstant(::mlir::OpBuilder&, ::mlir::Attribute, ::mlir::Type, ::mlir::Location) override;" if r["hasConstantMaterializer"] else "",
             a="::mlir::Attribute parseAttribute(::mlir::DialectAsmParser&, ::mlir::Type) const override; void printAttribute(::mlir::Attribute, ::mlir::DialectAsmPrinter&) const override;" if dialect == "TFL_Dialect" else "",
             x=r.get("extraClassDeclaration") or "")
    c = """%(n)s::%(n)s(::mlir::MLIRContext* context) : ::mlir::Dialect(getDialectNamespace(), context, ::mlir::TypeID::get<%(n)s>()) {
  %(dep)s
  initialize();
}
%(n)s::~%(n)s() = default;""" % dict(n=name, dep=" ".join("getContext()->loadDialect<%s>();" % x for x in r.get("dependentDialects") or []))
    return wrap_ns(ns, h), wrap_ns(ns, c)


# ---- DRR -------------------------------------------------------------------
ARITH_CONST = "Arith_ConstantOp"


class Pattern:
    def __init__(self, td, rec, idx):
        self.td, self.rec, self.idx = td, rec, idx
        self.n = 0
        self.sym = {}      # name -> ("op", var, OpDef) | ("operand", var) | ("attr", var)
        self.decl = []
        self.match = []
        self.checks = []   # equality checks
        self.nops = 0
        self.ops_matched = []
        self.body = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def opdef(self, dag):
        return OpDef(self.td, self.td[dag["operator"]])

    def bind(self, name, kind, var, extra=None):
        """Declares or checks equality with an earlier binding of the name."""
        if name in self.sym:
            old = self.sym[name]
            if old[0] != kind:
                raise Unsupported("symbol $%s bound to two kinds" % name)
            if kind == "attr":
                self.checks.append("%s == %s" % (old[1], var))
            else:
                self.checks.append("*%s.begin() == *%s.begin()" % (self.rng(old), self.rng((kind, var, extra))))
            return
        self.sym[name] = (kind, var, extra)

    def rng(self, s):
        return s[1] if s[0] == "operand" else "%s.getODSResults(0)" % s[1]

    def emit_match(self, dag, opvar):
        o = self.opdef(dag)
        self.nops += 1
        c = self.fresh("op_")
        self.decl.append("%s %s;" % (o.q, c))
        self.match += ["%s = ::llvm::dyn_cast_or_null<%s>(%s);" % (c, o.q, opvar), "if (!%s) return ::mlir::failure();" % c]
        self.ops_matched.append(c)
        if dag.get("name"):
            self.bind(dag["name"], "op", c, o)
        args = dag["args"]
        if len(args) != len(o.args):
            raise Unsupported("%s: %d pattern arguments for %d op arguments" % (o.name, len(args), len(o.args)))
        oi = 0
        for (leaf, name), (kind, an, ar, var) in zip(args, o.args):
            if kind == "operand":
                if isinstance(leaf, dict) and leaf.get("kind") == "dag":
                    if var:
                        raise Unsupported("nested pattern on a variadic operand")
                    v = self.fresh("def_")
                    self.match += ["::mlir::Operation* %s = (*%s.getODSOperands(%d).begin()).getDefiningOp();" % (v, c, oi), "if (!%s) return ::mlir::failure();" % v]
                    sub = dict(leaf)
                    if name and not sub.get("name"):
                        sub["name"] = name
                    self.emit_match(sub, v)
                else:
                    r = self.fresh("rng_")
                    self.decl.append("::mlir::Operation::operand_range %s(op0->getOperands());" % r)
                    self.match.append("%s = %s.getODSOperands(%d);" % (r, c, oi))
                    if isinstance(leaf, dict):
                        lr = self.td[leaf]
                        if not isa(lr, "TypeConstraint"):
                            raise Unsupported("operand leaf " + lr["!name"])
                        self.match.append("for (auto v : %s) { ::mlir::Type t = v.getType(); (void)t; if (!(%s)) return ::mlir::failure(); }" % (r, subst(self.td.cond(lr), self="t", builder="rewriter")))
                    elif leaf is not None:
                        raise Unsupported("operand leaf %r" % (leaf,))
                    if name and name != "_":
                        self.bind(name, "operand", r)
                oi += 1
            else:
                a = self.fresh("attr_")
                self.decl.append("%s %s;" % (storage(ar), a))
                self.match.append('%s = %s->getAttrOfType<%s>("%s");' % (a, c, storage(ar), an))
                if ar.get("defaultValue") and (isa(ar, "DefaultValuedAttr") or isa(ar, "DefaultValuedOptionalAttr")):
                    self.match.append("if (!%s) %s = %s;" % (a, a, default_attr(ar, "rewriter")))
                elif not ar["isOptional"]:
                    self.match.append("if (!%s) return ::mlir::failure();" % a)
                if isinstance(leaf, dict):
                    if leaf.get("kind") == "dag":
                        raise Unsupported("dag on an attribute")
                    lr = self.td[leaf]
                    if not isa(lr, "AttrConstraint"):
                        raise Unsupported("attribute leaf " + lr["!name"])
                    self.match.append("{ ::mlir::Attribute self_ = %s; (void)self_; if (!(%s)) return ::mlir::failure(); }" % (a, subst(self.td.cond(lr), self="self_", builder="rewriter", op="(*op0)")))
                elif leaf is not None:
                    raise Unsupported("attribute leaf %r" % (leaf,))
                if name and name != "_":
                    self.bind(name, "attr", a)

    def ref(self, name):
        """Value expression of a symbol."""
        idx = None
        if "__" in name and name not in self.sym:
            name, idx = name.rsplit("__", 1)
        s = self.sym[name]
        if s[0] == "attr":
            return s[1]
        if s[0] == "operand":
            return "(*%s.begin())" % s[1]
        if s[0] == "native":
            return s[1]
        return "(*%s.getODSResults(%s).begin())" % (s[1], idx or 0)

    def leaf(self, leaf, name):
        """C++ expression of a leaf result argument."""
        if leaf is None:
            return self.ref(name)
        if isinstance(leaf, str):
            return '"%s"' % leaf
        if isinstance(leaf, int):
            return str(leaf)
        r = self.td[leaf]
        if isa(r, "ConstantAttr"):
            return subst(self.td[r["attr"]]["constBuilderCall"], builder="rewriter", pos=[r["value"]])
        if isa(r, "NativeCodeCall"):
            if name is None:
                raise Unsupported("native leaf without a symbol")
            return subst(r["expression"], self=self.ref(name), builder="rewriter", loc="odsLoc", pos=[self.ref(name)])
        if name is not None:
            return self.ref(name)
        raise Unsupported("result leaf " + r["!name"])

    def value(self, dag, depth):
        """Creates the result of a nested dag; returns a C++ expression."""
        r = self.td[dag["operator"]]
        if r["!name"] in ("replaceWithValue", "location", "returnType", "either"):
            raise Unsupported("nested directive " + r["!name"])
        if isa(r, "NativeCodeCall"):
            pos = []
            for leaf, name in dag["args"]:
                pos.append(self.value(leaf, depth + 1) if isinstance(leaf, dict) and leaf.get("kind") == "dag" else self.leaf(leaf, name))
            v = self.fresh("nativeVar_")
            self.body.append("auto %s = %s; (void)%s;" % (v, subst(r["expression"], builder="rewriter", loc="odsLoc", op="(*op0)", ctxt="rewriter.getContext()", pos=pos), v))
            if dag.get("name"):
                self.sym[dag["name"]] = ("native", v, None)
            return v
        o = self.opdef(dag)
        return "(*%s.getODSResults(0).begin())" % self.create(o, dag, depth)

    def create(self, o, dag, depth):
        if len(dag["args"]) != len(o.args):
            raise Unsupported("%s: wrong number of result arguments" % o.name)
        vals = []
        for (leaf, name), arg in zip(dag["args"], o.args):
            if isinstance(leaf, dict) and leaf.get("kind") == "dag":
                vals.append(self.value(leaf, depth + 1))
            elif arg[3] and leaf is None:
                vals.append(self.rng(self.sym[name]))
            else:
                vals.append(self.leaf(leaf, name))
        v = self.fresh("new_")
        agg = ["::llvm::SmallVector<::mlir::Value, 4> tv_; ::llvm::SmallVector<::mlir::NamedAttribute, 4> ta_;"]
        for x, (kind, an, ar, var) in zip(vals, o.args):
            if kind == "operand":
                agg.append("for (auto q : %s) tv_.push_back(q);" % x if var else "tv_.push_back(%s);" % x)
            else:
                agg.append('if (::mlir::Attribute t = %s) ta_.emplace_back(rewriter.getStringAttr("%s"), t);' % (x, an))
        self.body.append("%s %s;" % (o.q, v))
        if "SameOperandsAndResultType" in o.traits or "FirstAttrDerivedResultType" in o.traits:
            self.body.append("{ %s %s = rewriter.create<%s>(odsLoc, tv_, ta_); }" % (" ".join(agg), v, o.q))
        elif depth > 0:
            self.body.append("%s = rewriter.create<%s>(odsLoc, %s);" % (v, o.q, ", ".join(vals)))
        else:
            self.body.append("{ %s ::llvm::SmallVector<::mlir::Type, 4> tt_; for (auto q : op0->getResults()) tt_.push_back(q.getType()); %s = rewriter.create<%s>(odsLoc, tt_, tv_, ta_); }" % (" ".join(agg), v, o.q))
        if dag.get("name"):
            self.sym[dag["name"]] = ("op", v, o)
        return v

    def constraint(self, dag):
        r = self.td[dag["operator"]]
        pos = []
        for leaf, name in dag["args"]:
            if leaf is not None and not name:
                pos.append(leaf if isinstance(leaf, str) else self.leaf(leaf, name))
            else:
                pos.append(self.ref(name))
        cond = self.td.cond(r)
        if isa(r, "TypeConstraint"):
            cond = subst(cond, self="(%s.getType())" % pos[0], builder="rewriter")
        elif isa(r, "AttrConstraint"):
            cond = subst(cond, self="((::mlir::Attribute)%s)" % pos[0], builder="rewriter")
        else:
            cond = subst(cond, self=pos[0] if pos else "", builder="rewriter", pos=pos)
        return "if (!(%s)) return ::mlir::failure();" % cond

    def gen(self):
        r = self.rec
        if r.get("supplementalPatterns"):
            raise Unsupported("supplemental patterns")
        src = r["sourcePattern"]
        root = self.opdef(src)
        self.emit_match(src, "op0")
        cons = [self.constraint(c) for c in r["constraints"]]
        eq = ["if (!(%s)) return ::mlir::failure();" % c for c in self.checks]
        res = r["resultPatterns"]
        nres = len(root.results)
        self.body.append("::llvm::SmallVector<::mlir::Value, 4> repl_;")
        # auxiliary patterns first, the last ones replace the results
        aux, rep = (res[:-nres], res[len(res) - nres:]) if len(res) > nres else ([], res)
        for a in aux:
            self.value(a, 1)
        for p in rep:
            op = self.td[p["operator"]]
            if op["!name"] == "replaceWithValue":
                (leaf, name), = p["args"]
                s = self.sym[name]
                self.body.append("for (auto q : %s) repl_.push_back(q);" % (s[1] if s[0] == "operand" else self.rng(s)))
            elif isa(op, "NativeCodeCall"):
                self.body.append("repl_.push_back(%s);" % self.value(p, 1))
            else:
                o = self.opdef(p)
                v = self.create(o, p, 0 if len(rep) == 1 and not aux else 1)
                self.body.append("for (unsigned q = 0; q < %d; q++) for (auto w : %s.getODSResults(q)) repl_.push_back(w);" % (len(o.results), v))
        delta = r["benefitDelta"]["args"][0][0] if r["benefitDelta"]["args"] else 0
        name = "GeneratedConvert%d" % self.idx
        loc = "rewriter.getFusedLoc({%s})" % ", ".join("%s->getLoc()" % c for c in self.ops_matched)
        return name, """struct %s : public ::mlir::RewritePattern {
  %s(::mlir::MLIRContext* context) : ::mlir::RewritePattern("%s", %d, context, {}) {}
  ::mlir::LogicalResult matchAndRewrite(::mlir::Operation* op0, ::mlir::PatternRewriter& rewriter) const override {
    %s
    %s
    %s
    %s
    auto odsLoc = %s; (void)odsLoc;
    %s
    rewriter.replaceOp(op0, repl_);
    return ::mlir::success();
  }
};
""" % (name, name, root.opname, self.nops + delta, "\n    ".join(self.decl), "\n    ".join(self.match), "\n    ".join(cons), "\n    ".join(eq), loc, "\n    ".join(self.body))


def gen_rewriters(d):
    td = TD(d)
    out, names = [], []
    for i, n in enumerate(d["!instanceof"]["Pattern"]):
        name, code = Pattern(td, d[n], i).gen()
        names.append(name)
        out.append(code)
    # mlir-tblgen registers the patterns in record order
    out.append("void LLVM_ATTRIBUTE_UNUSED populateWithGenerated(::mlir::RewritePatternSet& patterns) {\n%s}\n" % "".join("  patterns.add<%s>(patterns.getContext());\n" % n for n in names))
    return "\n".join(out)

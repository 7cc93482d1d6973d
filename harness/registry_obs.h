// What can be seen of a container: shared by the drivers of definition programs
static int token(variant const &v) {
    if (v.empty()) return -1;
    if (v.is<int>()) return v.cref<int>() % 2 ? v.cref<int>() : -2;
    if (v.is<std::string>()) return std::atoi(v.cref<std::string>().c_str()) % 2 ? -3 : std::atoi(v.cref<std::string>().c_str());
    return -4;
}
static variant instance(int k) {
    switch (k) { case 1: return K1{}; case 2: return K2{}; case 3: return K3{}; case 4: return K4{}; case 5: return K5{}; }
    return variant{};
}
static int method_id(MetaMethod const *m) {
    auto k = m->owner()->category() == mcatClass ? class_no(static_cast<MetaClass const*>(m->owner())) : 0;
    auto const &n = m->name();
    auto args = n.substr(n.find('('));
    auto inst = instance(k);
    try {
        if (args == "()") return m->invoke().cref<int>();
        if (args == "(int)") return m->invoke(1).cref<int>();
        if (args == "(int, char)") return m->invoke(1, (char)1).cref<int>();
        if (args.find(", int)") != args.npos) return m->invoke(inst, 1).cref<int>();
        return m->invoke(inst).cref<int>();
    } catch (std::exception &e) { return -1; }
}
static int prop_id(MetaProperty const *p) {
    auto k = p->owner()->category() == mcatClass ? class_no(static_cast<MetaClass const*>(p->owner())) : 0;
    auto inst = instance(k);
    try { return p->get().cref<int>(); } catch (std::exception&) {}
    try { return p->get(inst).cref<int>(); } catch (std::exception&) { return -1; }
}
template<typename F> static std::string list(std::size_t n, F f) { std::string s = "["; for (std::size_t i = 0; i < n; ++i) s += (i ? "," : "") + f(i); return s + "]"; }

struct Sane {
    std::vector<std::string> bad; MetaContainer const *c;
    void ck(bool ok, std::string const &what) { if (!ok) bad.push_back(what); }
    void item(MetaItem const *i, MetaCategory cat, std::string const &what) {
        if (!i) { bad.push_back(what + ": null item"); return; }
        ck(i->category() == cat, what + " " + i->name() + ": category");
        ck(i->owner() == c, what + " " + i->name() + ": owner");
        ck(i->qualifiedName() == c->qualifiedName() + "::" + i->name(), what + " " + i->name() + ": qualified name " + i->qualifiedName());
        auto key = ref(c) + "/" + num(cat) + "/" + i->name();
        auto r = seen_items.emplace(key, i);
        ck(r.first->second == i, what + " " + i->name() + ": moved");
    }
    std::string values(std::size_t n, void const *owner, std::function<std::string const&(std::size_t)> name, std::function<variant const&(std::size_t)> at,
                       std::function<variant const&(std::string_view)> by, std::function<void(std::function<bool(std::string_view, variant const&)>)> each, std::string const &what) {
        auto r = list(n, [&](std::size_t i) {
            auto const &nm = name(i); auto const &v = at(i);
            ck(&by(nm) == &v, what + " " + nm + ": by name");
            auto s = seen_values.emplace(std::make_pair(owner, what + "/" + nm), &v);
            ck(s.first->second == &v, what + " " + nm + ": moved");
            ck(token(*s.first->second) == token(v), what + " " + nm + ": old reference");
            return "[" + quote(nm) + "," + num(token(v)) + "]"; });
        ck(name(n).empty() && at(n).empty() && name(n + 100).empty() && at(n + 100).empty(), what + ": out of range");
        ck(by("no such name").empty() && by("").empty(), what + ": unknown name");
        std::size_t pos = 0; bool ok = true;
        each([&](std::string_view nm, variant const &v) { ok = ok && pos < n && nm == name(pos) && &v == &at(pos); ++pos; return true; });
        ck(ok && pos == n, what + ": enumeration");
        for (std::size_t stop = 1; stop <= n; ++stop) {
            pos = 0;
            each([&](std::string_view, variant const &) { return ++pos < stop; });
            ck(pos == stop, what + ": enumeration stopped");
        }
        return r;
    }
};
static std::string dump(MetaContainer const *c) {
    Sane s{{}, c};
    c->attributeCount();    // everything deferred runs here
    std::string o = "{\"qn\":" + quote(c->qualifiedName()) + ",\"name\":" + quote(c->name());
    auto k = c->category() == mcatClass ? static_cast<MetaClass const*>(c) : nullptr;
    s.ck(k || c->category() == mcatNamespace, "category");
    s.ck(c->owner() ? true : c == MetaNamespace::global(), "owner");
    if (!k) s.ck(static_cast<MetaNamespace const*>(c)->isGlobal() == (c == MetaNamespace::global()), "isGlobal");
    o += ",\"k\":" + num(class_no(k)) + ",\"owner\":" + owner_json(c->owner());
    o += ",\"ns\":" + list(c->namespaceCount(), [&](auto i) { auto x = c->getNamespace(i); s.item(x, mcatNamespace, "namespace"); s.ck(c->getNamespace(x->name()) == x, "namespace by name"); return quote(x->name()); });
    o += ",\"class\":" + list(c->classCount(), [&](auto i) { auto x = c->getClass(i); s.item(x, mcatClass, "class"); s.ck(c->getClass(x->name()) == x, "class by name");
        s.ck(MetaClass::find(x->metaTypeId()) == x && MetaClass::find(MetaType{x->metaTypeId()}.typeName()) == x, "class of type"); return quote(x->name()); });
    o += ",\"prop\":" + list(c->propertyCount(), [&](auto i) { auto x = c->getProperty(i); s.item(x, mcatProperty, "property"); s.ck(c->getProperty(x->name()) == x, "property by name"); return "[" + quote(x->name()) + "," + num(prop_id(x)) + "]"; });
    o += ",\"method\":" + list(c->methodCount(), [&](auto i) { auto x = c->getMethod(i); s.item(x, mcatMethod, "method"); s.ck(c->getMethod(x->name()) == x, "method by name"); return "[" + quote(x->name()) + "," + num(method_id(x)) + "]"; });
    o += ",\"enum\":" + list(c->enumCount(), [&](auto i) { auto x = c->getEnum(i); s.item(x, mcatEnum, "enum"); s.ck(c->getEnum(x->name()) == x, "enum by name");
        auto el = s.values(x->elementCount(), x, [&](auto j) -> auto& { return x->elementName(j); }, [&](std::size_t j) -> auto& { return x->element(j); }, [&](std::string_view n) -> auto& { return x->element(n); },
            [&](auto f) { x->for_each_element([&](std::string const &n, variant const &v) { return f(n, v); }); }, "element");
        auto at = s.values(x->attributeCount(), x, [&](auto j) -> auto& { return x->attributeName(j); }, [&](std::size_t j) -> auto& { return x->attribute(j); }, [&](std::string_view n) -> auto& { return x->attribute(n); },
            [&](auto f) { x->for_each_attribute(f); }, "enum attribute");
        return "{\"name\":" + quote(x->name()) + ",\"el\":" + el + ",\"attr\":" + at + "}"; });
    o += ",\"ctor\":" + list(c->constructorCount(), [&](auto i) { auto x = c->getConstructor(i); s.item(x, mcatConstructor, "constructor"); s.ck(c->getConstructor(x->name()) == x, "constructor by name"); return quote(x->name()); });
    o += ",\"attr\":" + s.values(c->attributeCount(), c, [&](auto j) -> auto& { return c->attributeName(j); }, [&](std::size_t j) -> auto& { return c->attribute(j); }, [&](std::string_view n) -> auto& { return c->attribute(n); },
        [&](auto f) { c->for_each_attribute(f); }, "attribute");
    o += ",\"bases\":" + list(k ? k->baseClassCount() : 0, [&](auto i) { return num(class_no(k->baseClass(i))); });
    o += ",\"derived\":" + list(k ? k->derivedClassCount() : 0, [&](auto i) { return num(class_no(k->derivedClass(i))); });
    if (k) s.ck(!k->baseClass(k->baseClassCount()) && !k->derivedClass(k->derivedClassCount()), "bases out of range");
    std::size_t z = 0;
    s.ck(!c->getNamespace(c->namespaceCount()) && !c->getClass(c->classCount()) && !c->getProperty(c->propertyCount()) && !c->getMethod(c->methodCount())
        && !c->getEnum(c->enumCount()) && !c->getConstructor(c->constructorCount()) && !c->getMethod(z - 1), "item out of range");
    for (auto n: {"", "no such name", "(", "()", "no such name()"})
        s.ck(!c->getNamespace(n) && !c->getClass(n) && (k && k->baseClassCount() ? true : !c->getProperty(n) && !c->getMethod(n)) && !c->getEnum(n) && !c->getConstructor(n), std::string("unknown name ") + n);
    z = 0; bool ok = true;
    c->for_each_class([&](MetaClass const *x) { ok = ok && x == c->getClass(z); ++z; return true; });
    s.ck(ok && z == c->classCount(), "enumeration of classes");
    z = 0;
    c->for_each_method([&](MetaMethod const *x) { ok = ok && x == c->getMethod(z); ++z; return true; });
    s.ck(ok && z == c->methodCount(), "enumeration of methods");
    if (c->methodCount() > 1) { z = 0; c->for_each_method([&](auto) { ++z; return false; }); s.ck(z == 1, "enumeration of methods stopped"); }
    if (c->classCount() > 1) { z = 0; c->for_each_class([&](auto) { ++z; return false; }); s.ck(z == 1, "enumeration of classes stopped"); }
    c->for_each_class({}); c->for_each_method({}); c->for_each_attribute({});
    return o + ",\"sane\":" + list(s.bad.size(), [&](auto i) { return quote(s.bad[i]); }) + "}";
}
static void observe(MetaContainer const *c, MetaClass const *k, Op const &o, std::vector<std::string> &res) {
    auto add = [&](std::string const &s) { res.push_back(s); };
    auto name = [&](MetaItem const *i) { add(i ? i->name() : ""); };
    auto cont = [&](MetaContainer const *i) { add(ref(i)); };
    auto ctor = [&](MetaConstructor const *x) { if (x) { auto n = c->constructorCount(); for (std::size_t i = 0; i < n; ++i) if (c->getConstructor(i) == x) { add(num(i + 1)); return; } } add("0"); };
        auto const &w = o.m; std::size_t z = 0;
        if (!k && (w == "baseCount" || w == "base0" || w == "derivedCount" || w == "derived0")) c->attributeCount();   // namespaces have none
        if (w == "nsCount") add(num(c->namespaceCount())); else if (w == "ns0") name(c->getNamespace(z));
        else if (w == "classCount") add(num(c->classCount())); else if (w == "class0") name(c->getClass(z));
        else if (w == "propCount") add(num(c->propertyCount())); else if (w == "prop0") name(c->getProperty(z));
        else if (w == "methodCount") add(num(c->methodCount())); else if (w == "method0") name(c->getMethod(z));
        else if (w == "enumCount") add(num(c->enumCount())); else if (w == "enum0") name(c->getEnum(z));
        else if (w == "ctorCount") add(num(c->constructorCount())); else if (w == "ctor0") name(c->getConstructor(z));
        else if (w == "attrCount") add(num(c->attributeCount())); else if (w == "attrName0") add(c->attributeName(z));
        else if (w == "attr0") { auto &v = c->attribute(z); add(v.empty() ? "" : num(token(v))); }
        else if (w == "attrBy") { auto &v = c->attribute(o.n); add(v.empty() ? "" : num(token(v))); }
        else if (w == "baseCount") add(num(k ? k->baseClassCount() : 0)); else if (w == "base0") add(num(k ? class_no(k->baseClass(0)) : 0));
        else if (w == "derivedCount") add(num(k ? k->derivedClassCount() : 0)); else if (w == "derived0") add(num(k ? class_no(k->derivedClass(0)) : 0));
        else if (w == "eachClass") c->for_each_class([&](auto x) { name(x); return true; });
        else if (w == "eachMethod") c->for_each_method([&](auto x) { name(x); return true; });
        else if (w == "eachAttr") c->for_each_attribute([&](std::string_view n, variant const&) { add(std::string(n)); return true; });
        else if (w == "nsBy") cont(c->getNamespace(o.n)); else if (w == "classBy") cont(c->getClass(o.n)); else if (w == "enumBy") name(c->getEnum(o.n));
        else if (w == "elemCount") { if (auto x = c->getEnum(o.n)) add(num(x->elementCount())); }
        else if (w == "elem0") { if (auto x = c->getEnum(o.n)) add(x->elementName(z)); }
        else if (w == "eachElem") { if (auto x = c->getEnum(o.n)) x->for_each_element([&](std::string const &n, variant const&) { add(n); return true; }); }
        else if (w == "ctor") { auto x = c->getConstructor(o.n); if (x) name(x); }
        else if (w == "dflt") ctor(c->defaultConstructor()); else if (w == "copy") ctor(c->copyConstructor()); else if (w == "move") ctor(c->moveConstructor());
        else if (w == "force") c->forceDeferredDefine();
        else std::abort();
}

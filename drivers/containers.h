#pragma once
// A slot that may or may not hold a container; storage lies on the heap so that ASan sees it.
namespace drv {
template<typename C> struct Slot {
    bool on = false;
    C* p = nullptr;
    template<typename... As> void emplace(As&&... as) {
        off();
        void* m = malloc(sizeof(C));
        memset(m, 0xCD, sizeof(C));
        p = new(m) C(static_cast<As&&>(as)...);
        on = true;
    }
    void put(C&& x) {
        emplace(static_cast<C&&>(x));
    }
    void off() {
        if(on) {
            p->~C();
            ::free((void*)p);
            p = nullptr;
            on = false;
        }
    }
    C& operator*() {
        return *p;
    }
    C* operator->() {
        return p;
    }
};
// Several readings of one sequence, collected for one trace event.
struct Views {
    std::string s = "[";
    void add(const std::vector<long>& v) {
        if(s.size() > 1) s += ",";
        s += Ev::arr(v);
    }
    template<typename B> void range(B b, B e) {
        std::vector<long> v;
        for(; !(b == e); ++b) v.push_back((*b).value());
        add(v);
    }
    // every way of reading through a slice, by const and by non-const object
    template<typename S> void slice(const S& cs) {
        std::vector<long> i, d;
        for(size_t k = 0; k < cs.length(); k++) i.push_back(cs[k].value());
        for(size_t k = 0; k < cs.length(); k++) d.push_back(cs.data()[k].value());
        add(i);
        add(d);
        range(cs.begin(), cs.end());
        S ms = cs.clone();
        std::vector<long> mi, md;
        for(size_t k = 0; k < ms.length(); k++) mi.push_back(ms[k].value());
        for(size_t k = 0; k < ms.length(); k++) md.push_back(ms.data()[k].value());
        add(mi);
        add(md);
        range(ms.begin(), ms.end());
        // the raw bytes of the slice are the bytes of its elements
        auto by = cs.to_bytes();
        auto mby = ms.to_bytes();
        std::vector<long> b, mb;
        if(by.length() == cs.length() * sizeof(*cs.data()))
            for(size_t k = 0; k < cs.length(); k++)
                b.push_back(reinterpret_cast<decltype(cs.data())>(by.data())[k].value());
        if(mby.length() == ms.bytes())
            for(size_t k = 0; k < cs.length(); k++)
                mb.push_back(reinterpret_cast<decltype(cs.data())>(mby.data())[k].value());
        add(b);
        add(mb);
    }
    void into(Ev& e) {
        e.raw("xs", s + "]");
    }
};
} // namespace drv

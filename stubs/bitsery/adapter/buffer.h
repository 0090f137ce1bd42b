#pragma once
#include "../bitsery.h"
namespace bitsery {
template <class Buf> class OutputBufferAdapter {
    Buf* b_; std::size_t n_ = 0;
public:
    using Target = Buf;
    OutputBufferAdapter(Buf& b) : b_(&b) { b.clear(); }
    void write(const char* p, std::size_t n) { b_->insert(b_->end(), p, p + n); n_ += n; }
    void flush() {}
    std::size_t writtenBytesCount() const { return n_; }
};
template <class Buf> class InputBufferAdapter {
    typename Buf::const_iterator p_; std::size_t left_; ReaderError e_ = ReaderError::NoError;
public:
    struct Source { typename Buf::const_iterator it; std::size_t n; };
    InputBufferAdapter(Source s) : p_(s.it), left_(s.n) {}
    void read(char* p, std::size_t n) {
        if (e_ == ReaderError::NoError && n <= left_) { for (std::size_t i = 0; i < n; ++i) p[i] = (char)*p_++; left_ -= n; return; }
        if (e_ == ReaderError::NoError) e_ = ReaderError::DataOverflow;
        std::memset(p, 0, n);
    }
    std::size_t remainingHint() const { return left_; }
    ReaderError error() const { return e_; }
    void error(ReaderError e) { if (e_ == ReaderError::NoError) e_ = e; }
    bool isCompletedSuccessfully() const { return e_ == ReaderError::NoError && left_ == 0; }
};
template <class InAdapter, class T>
std::pair<ReaderError, bool> quickDeserialization(typename InAdapter::Source src, T& v) {
    Deserializer<InAdapter> s(src);
    s.object(v);
    return {s.adapter().error(), s.adapter().isCompletedSuccessfully()};
}
}

#pragma once
#include "../bitsery.h"
#include <istream>
#include <ostream>
namespace bitsery {
class OutputStreamAdapter {
    std::ostream* o_;
public:
    OutputStreamAdapter(std::ostream& o) : o_(&o) {}
    void write(const char* p, std::size_t n) { o_->write(p, (std::streamsize)n); }
    void flush() { o_->flush(); }
};
class InputStreamAdapter {
    std::istream* i_;
    ReaderError e_ = ReaderError::NoError;
public:
    InputStreamAdapter(std::istream& i) : i_(&i) {}
    void read(char* p, std::size_t n) {
        if (e_ == ReaderError::NoError) {
            i_->read(p, (std::streamsize)n);
            if ((std::size_t)i_->gcount() == n) return;
            e_ = i_->bad() ? ReaderError::ReadingError : ReaderError::DataOverflow;
        }
        std::memset(p, 0, n);
    }
    std::size_t remainingHint() {
        auto p = i_->tellg();
        if (p < 0) return 0;
        i_->seekg(0, std::ios::end);
        auto e = i_->tellg();
        i_->seekg(p);
        return (std::size_t)(e - p);
    }
    ReaderError error() const { return e_; }
    void error(ReaderError e) { if (e_ == ReaderError::NoError) e_ = e; }
    bool isCompletedSuccessfully() const { return e_ == ReaderError::NoError && i_->peek() == EOF; }
};
}

#!/bin/bash
# Generate patched copies of system headers that do not compile as C++17 with this code base's expectations.
# usage: gen_headers.sh OUTDIR
set -e
out=$1; mkdir -p "$out/boost/optional"
if [ ! -e "$out/.done2" ]; then
  cp -r /usr/include/jsonrpccpp "$out/"
  # dynamic exception specifications are ill-formed in C++17
  grep -rlE 'throw *\(' "$out/jsonrpccpp" | xargs sed -i -E 's/\) *(const)? *throw *\( *\)/) \1 noexcept/g'
  grep -rlE 'throw *\(' "$out/jsonrpccpp" | xargs sed -i -E 's/\) *(const)? *throw *\([^)]*\)/) \1/g'
  # skaled's (older) boost::optional<uint64_t> accepts explicitly-convertible number types
  awk '/Assigns from an expression. See corresponding constructor./ && !d { d=1; print "    template<class Expr_, typename boost::enable_if_c< std::is_arithmetic<T>::value && std::is_class<typename std::decay<Expr_>::type>::value && std::is_constructible<T,Expr_>::value && !std::is_convertible<Expr_,T>::value && !optional_detail::is_optional_or_tag<Expr_>::value, bool>::type = true >\n    optional& operator=( Expr_&& e_ ) { T v_ = static_cast<T>(e_); return *this = v_; }" } {print}' \
     /usr/include/boost/optional/optional.hpp > "$out/boost/optional/optional.hpp"
  # newer libjson-rpc-cpp offers ProcessRequest(), which skaled's IPC server calls
  sed -i 's@^        private:@            void ProcessRequest(const std::string\& rq_, std::string\& rs_) { if (GetHandler()) GetHandler()->HandleRequest(rq_, rs_); }\n        private:@' "$out/jsonrpccpp/server/abstractserverconnector.h"
  touch "$out/.done2"
fi

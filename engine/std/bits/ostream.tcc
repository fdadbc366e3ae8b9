// symbolic builds only: numbers written to text streams go through model/text.cpp
namespace std { template <> template <> __attribute__((visibility("hidden"))) ostream& ostream::_M_insert<double>(double); }
#include_next <bits/ostream.tcc>

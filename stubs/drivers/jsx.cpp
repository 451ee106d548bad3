// The whole JavaScript XMSS binding, reached through its registrations.
#include "jswrapper/jsqrlwrapper.cpp"
template class std::basic_string<char>;

// Forced first include of the contract units compiled for proof: libstdc++'s std::string
// members are instantiated in the unit instead of being taken from libstdc++.so, so that
// their bodies are part of what is proved.  Changes no code.
#include <version>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1

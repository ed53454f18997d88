// clang needs the global nullptr_t that gcc's <stddef.h> provides
#ifdef __cplusplus
#include <cstddef>
using std::nullptr_t;
#endif

#include "absl/log/log.h"
namespace absl { inline void InitializeLog() {} }

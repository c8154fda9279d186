#include "schaapcommon/threading/threadpool.h"

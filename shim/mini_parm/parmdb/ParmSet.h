#include "parmdb/ParmFacade.h"

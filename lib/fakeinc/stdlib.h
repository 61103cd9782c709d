#include "pnut_fake.h"

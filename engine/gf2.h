#pragma once
#include "expr.h"
E gf2norm(E c);   // canonical form of a condition
E gf2fold(E e);   // constant if the expression is one
E gf2rebuild(E e);

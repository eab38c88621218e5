#pragma once
#include "array.h"
#include "correlation.h"
#include "data_split.h"
#include "discrete_choice.h"
#include "distributions.h"
#include "frequency.h"
#include "functionx.h"
#include "matrix.h"
#include "matrix_utils.h"
#include "optimization.h"
#include "pca.h"
#include "running.h"
#include "scoring.h"
#include "searchers.h"
#include "statistics.h"
#include "sur.h"
#include "variable.h"
#include "varma.h"

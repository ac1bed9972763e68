/* Stand-in: no BLAS is installed; the programs explored call none of it. */
#pragma once
typedef int blasint;

/* Expressions that use the run-time macros the way generated code nests them.  Included once with the macros of the
   header and once with plain functions. */
X(0, MIN(a, b)) X(1, MAX(a, b)) X(2, MIN(b, a)) X(3, MAX(b, a))
X(4, MIN(a + b, c)) X(5, MAX(c, a - b)) X(6, MIN(a - b, c - d)) X(7, MAX(a * b, c + d))
X(8, MIN(a, b) + c) X(9, c - MIN(a, b)) X(10, c * MAX(a, b)) X(11, MAX(a, b) * MIN(c, d)) X(12, -MIN(a, b)) X(13, -MAX(a, b))
X(14, MIN(MIN(a, b), MIN(c, d))) X(15, MAX(a, MAX(b, MAX(c, d)))) X(16, MIN(MAX(a, b), MAX(c, d))) X(17, MAX(MIN(a, b), c) - d)
X(18, MIN(a > b ? a : c, d)) X(19, MAX(a, b == c ? d : c)) X(20, MIN(a, b) < MAX(c, d) ? a : b) X(21, MIN((a, b), c))
X(22, FMA(a, b, c)) X(23, FMA(a + b, c, d)) X(24, FMA(a, b - c, d)) X(25, FMA(a, b, c - d)) X(26, FMA(a - b, c + d, a))
X(27, d * FMA(a, b, c)) X(28, FMA(a, b, c) * d) X(29, d - FMA(a, b, c)) X(30, -FMA(a, b, c)) X(31, FMA(FMA(a, b, c), d, a))
X(32, FMA(a, FMA(b, c, d), a)) X(33, FMA(a, b, FMA(c, d, a))) X(34, FMA(a, b, c > d ? c : d)) X(35, FMA(a > b ? a : b, c, d))
X(36, MIN(FMA(a, b, c), d)) X(37, FMA(MIN(a, b), MAX(c, d), a)) X(38, FMA(a, b, c) - FMA(c, d, a)) X(39, FMA(-a, -b, -c)) X(40, MIN(-a, -b))
X(41, FMA(a, b, c) > d ? a : b) X(42, MAX(FMA(a, b, c), FMA(b, c, d))) X(43, FMA((a, b), c, d)) X(44, a - MAX(b, c) - MIN(d, a))

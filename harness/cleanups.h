// Programs for the clean-up passes: short statement sequences in every kind of context.
#pragma once
#include <string>
#include <vector>
inline std::vector<std::string> cleanups() {
    std::vector<std::string> r;
    // straight-line code: every sequence of three statements
    const std::string pre = "$(k := 1; s = A[3] + 0; t = 5; P = &A[2]; Q = &B[0]; T[0] = 4; T[1] = N + 1;) ";
    const std::string S = "$(s = A[0] + 1;|A[0] = s + 1;|A[1] = t * 2;|t = s + 1;|s = t + s;|k := k+1;|k := N;|A[k] = s + 2;|s = k + 1;|A[1] = k + 1;|P = &A[k];|P[0] = s + 1;|s = P[1] + 1;|T[k] = s + 1;|s = T[1] + 1;|{{ s = A[0] + 1; A[2] = s + 1; }}|nop; & k := 2;|k := k+1, l := k;|~k := N+1;|~l := k+1;|~k := l;|~s = 7;|~A[2] = 7;|~t = A[2];|~P = &B[1];|~Q = &P[1];|~Q[0] = t + 0;|~t = s - t;|~B[k+1] = A[k] + A[k+1];|~{ s = 3; k := 3; })";
    r.push_back(pre + S + " " + S + " " + S + " $(|A[5] = s + t; A[6] = k + 0;)");
    // conditionals
    const std::string C = "$(N < M|k < 1|~k == 1|~N > 0 and k < 2|~N < 2 or M < 2|~not (k < N))";
    const std::string I2 = "$(s = A[0] + 1;|k := k+1;|k := 3;|A[k] = s + 2;|P = &A[k];|~t = s + 1;)";
    const std::string I = "$(s = A[0] + 1;|~t = s + 1;|k := k+1;|k := 3;|A[k] = s + 2;|~nop;|P = &A[k];|T[0] = s + 0;|~{ }|~k := N;|~s = 5;|~{{ s = A[0] + 1; A[2] = s + 1; }}|~if (N < 2) { s = 2; }|~if (k < 1) { k := 4; } else { k := 5; })";
    r.push_back(pre + "$(|k := 0;) if (" + C + ") { " + I + " $(|" + I2 + ") } $(|else { " + I + " }) $(|k := k+2;) A[5] = s + t; A[k] = T[0] + 1; $(|P[0] = 3;)");
    r.push_back("k := $(0|N); $(|l := k;) if (k < 2) { $(k := 7;|l := 3;|s = 1;|A[0] = 1;) } else if ($(k < 3|N > 2|M == 1)) { $(k := 8;|l := 4;|s = 2;|A[0] = 2;) } $(|else { $(k := 9;|l := 5;|s = 3;|A[0] = 3;) }) $(A[k] = 1;|A[1] = k + 0;|if (k == 7) { A[1] = 1; } else { A[1] = 2; }|if (k < 2) { A[1] = 1; } else { A[1] = 2; }|l := k; A[l] = 5;)");
    // loops
    const std::string B1 = "$(s = s + B[i];|k := k+1;|k := i;|k := i+1;|A[i] = s + k;|A[k] = B[i] + 1;|t = B[i];|A[i] = t + 1;|T[i] = B[i];|P = &A[i];|P[0] = B[i] + 1;|~k := k+2;|~k := 2*i;|~s = 3;|~l := k;|~A[l] = 4;|~C[i] = T[i] + 1;|~nop;|~if (i < M) { k := k+1; }|~if (k < N) { A[i] = 1; }|~P = &P[1];)";
    r.push_back("k := $(0|~1|~M); s = 0; t = 1; $(|~l := 0;) P = &A[0]; T[0] = 2; for i=$(0|1)..$(N|~3) { " + B1 + " " + B1 + " $(|& k := k+1;) } $(|A[7] = k + s;|A[7] = i + s;|A[k] = t + 1;|P[0] = 9;)");
    r.push_back("$(s = 0;|k := 0;) $(for|map) i=$(0|1|N)..$(N|1|0|M):1 { $(A[i] = i + 0;|nop;|s = i + 1;|for j=0..$(0|1|M) { $(A[j] = i + j;|nop;|s = j + 0;) }|if (i < 0) { A[i] = 5; }|if (i >= 0) { A[i] = 5; } else { A[i] = 6; }|k := i;) } $(|A[8] = s + 0;|A[8] = i + 0;)");
    r.push_back("k := 0; for i=0..$(N|3) { $(|k := 0;|l := k;) for j=0..$(M|2|i) { $(A[k] = B[j] + 1;|s = B[k]; A[j] = s + 1;|P = &A[k]; P[0] = i + j;|A[l] = k + j;) $(k := k+1;|l := l+1;|k := k+j;|) } $(k := k+1;|k := k+2;|) } A[9] = k + 0;");
    // general loops
    r.push_back("k := $(0|N|3); $(|s = 0;) loop { if ($(k >= N|k == 3|k > M|N < k)) { $(|A[7] = 3; )break; } $(A[k] = B[k] + 1;|A[0] = k + 1;|s = B[k]; A[k] = s + 0;|if (k == 1) { k := k+2; continue; }) k := $(k+1|k+2); } $(|A[8] = k + 0;)");
    r.push_back("k := 0; loop { $(A[k] = 1;|s = A[k] + 1;|) k := k+1; if ($(k < N|k < 3)) { $(|A[k+1] = 2; )continue; } else { $(|A[k+2] = 3; )break; } $(|A[9] = 4;) } $(|A[8] = k + 0;)");
    r.push_back("k := 0; loop { if ($(k < N|N > k and k < 4|not (k >= N))) { A[k] = B[k] + 1; $(|if (k == M) { break; }|if (k == M) { return; }|if (k == M) { A[5] = 1; k := k+1; continue; }) k := k+1; } else { $(|l := k; )break; } } A[8] = k + 0; $(|loop { break; }|loop { k := k+1; if (k > 5) { break; } } A[9] = k + 0;)");
    r.push_back("k := 0; P = &A[0]; loop { if (k >= N) { break; } $(P[0] = 1;|s = P[0] + 1; P[1] = s + 0;|P[k] = 2;) P = &P[$(1|2)]; $(|Q = &P[1]; Q[0] = 3;) k := k+1; } $(|P[0] = 7;|A[8] = k + 0;)");
    // dead and useless code
    r.push_back("$(s = A[0] + 1;|s = 2; T[0] = 1;|s = 3; k := N;|s = 4; W[0] = X[0] + Y[0];|s = 0; P = &A[1];|s = 5; x = X[0] + Y[0];) $(if (0 > 1) { A[0] = 1; }|if (1 > 0) { A[0] = 1; } else { A[1] = 1; }|for i=0..0 { A[i] = 1; }|for i=0..1 { A[i] = i + 1; }|if (N < 1) { }|{ }|for i=0..N { }|return; A[0] = 3;|if (N < 2) { return; } A[0] = 4;|loop { return; }) $(A[2] = A[1] + 1;|s = s + 1;|Z[0] = W[0] * x;|P[0] = 1;|A[3] = k + 0;|)");
    // doubles and narrow types
    r.push_back("x = $(X[0] + Y[0]|X[0] * Y[1]|X[1] - Y[0]); $(y = x;|y = x + Y[1];|W[0] = x; y = W[0] * x;|Z[0] = x; y = Z[0] + x;) $(|x = Y[2];|X[0] = y + Y[0];) Z[$(0|1)] = $(x + y|y * y|x); $(|if (N < 2) { y = x; } Z[3] = y;)");
    r.push_back("c = p + $(1|q); d = $(c * 2|p - c|c); $(|k := N; )$(A[0] = c + d;|s = c + 0; A[1] = s + d;|if (p < 1) { c = d + 1; } A[2] = c + 0;|for i=0..3 { c = c + i; A[i] = c + d; }) $(|A[3] = p + q;)");
    // references
    r.push_back("P = &A[$(0|k|N|2)]; $(|Q = &P[$(1|0|k)];|Q = &P[1]; R = &Q[1];) $(P[0] = 1;|P[1] = B[0] + 2;|s = P[0]; B[0] = s + 1;|A[2] = P[1] + 1;) $(|P = &B[1];|A = &B[0];) $(P[0] = 5;|B[1] = P[0] + P[1];|if (N < 2) { P = &C[0]; } P[0] = 6;|for i=0..N { P[i] = B[i] + 1; }|for i=0..N { P = &A[i]; P[0] = i + 1; P[1] = P[0] + 1; })");
    r.push_back("k := 1; for i=0..N { $(P = &G2[i][k]|P = &A[2*i]|P = &A[i]; Q = &P[i]|P = &T[i]); $(P[0] = B[i] + 1;|s = P[0] + 1; C[i] = s + 0;|P[0] = i + 0; C[i] = P[0] + 1;) $(|k := k+1;|k := 2;) }");
    return r;
}

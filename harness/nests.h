// Programs built from loop nests.
#pragma once
#include <string>
#include <vector>
// What is left out of the quick tier begins with ~.
inline std::vector<std::string> nests() {
    std::vector<std::string> r;
    // two nested loops, one statement, every pair of access offsets
    r.push_back("$(for|map) i=$(0|~1)..N { $(for|map) j=$(0|i|~1|~0-i)..$(M|i+1|~N|~i|~M-i) { $(A[5*i+j]|A[j]|A[i+j]|~A[5*i]|~A[0]|~A[i-j]) = $(A[5*i+j]|A[5*i+j-1]|A[5*i+j-5]|A[5*i+j-4]|A[5*i+j+4]|A[5*i+j-6]|~A[5*i+j+1]|~A[5*i+j+5]|~A[5*i+j+6]|~B[j]|A[i]) + 1; } }");
    // loop headers: bounds, strides, conditions, constants
    r.push_back("$(for|map) i=$(0|1|~M|~0-1)..$(N|4|~N+M|~N-1|~2*N):$(1|2|~3) { $(A[i]|A[i+M]|A[0]|~A[2*i]|~A[N]) = $(B[i]|A[i]|A[i-1]|A[i+2]|~A[i+1]|~A[N]) + 1; }");
    r.push_back("for (i = $(0|M|~N|~1); $(i < N|i <= N|i < N and i < M|i < N or i < M|i != N|i < M+1 and i <= N|N > i|i > 0|i >= 0|i >= M|2*i < N|i < 4|i <= 3); i = $(i+1|i+2|i-1|~2*i+1|~i+M)) { $(A[i]|A[0]) = $(B[i]|A[i]|~A[0]|~s) + 1; }");
    r.push_back("$(for|map) i=$(0|1)..$(N|4) { $(for|map) j=$(0|~1)..$(M|~3):$(1|2) { G2[i][j] = $(G2[j][i]|G2[i-1][j]|G2[i-1][j+1]|G2[i+1][j-1]|~G2[i][j]|~G2[i][j-1]|~H2[i][j]|~H2[j][i]|~G2[0][j]|~G2[i][0]) + $(1|~A[i]|~A[j]); } }");
    // two statements in a loop
    r.push_back("$(for|map) i=$(0|~1)..$(N|~N+1) { $(A[i]|A[i+1]|A[0]|s|T[0]|~T[i]) = $(B[i]|A[i]|~C[i]) + 1; $(C[i]|B[i]|A[i]|~A[i-1]|~B[i+1]|s) = $(A[i]|A[i+1]|A[i-1]|A[0]|B[i]|~B[i+1]|~B[i-1]|s|T[0]|~T[i]) + 2; } $(|D[0] = s + 0;|~D[0] = T[0] + i;)");
    // statements around an inner loop
    r.push_back("$(for|map) i=0..N { $(|s = 0;|A[i] = 1;|T[0] = B[i];|~A[i] = s + 1;) for j=0..$(M|i|~2) { $(A[i] = A[i] + B[j];|s = s + B[j];|A[j] = B[5*i+j] + 1;|C[5*i+j] = A[i] + B[j];|T[0] = T[0] + B[j];|~A[i] = T[0] * 2;) } $(|A[i] = s + 0;|C[i] = A[i] + 1;|A[i] = T[0] + 1;|~B[i] = j + 0;) }");
    // transitions, conditionals
    r.push_back("$(for|map) i=0..N { $(k := i;|k := i+1;|k := k+1;|k := 2*i, l := i;|nop; & k := i;) $(A[i] = k + 1;|A[k] = B[i] + 1;|A[i] = B[k] + 1;|for j=0..k { A[5*i+j] = B[j] + 1; }) $(|& k := k+1;) } $(|C[0] = k + 0;)");
    r.push_back("$(for|map) i=0..N { if ($(i < M|i == 1|i < K and i > 0|N > 2)) { $(A[i] = B[i] + 1;|A[i] = A[i] + 1;|s = B[i];|A[0] = i + 1;) } $(|else { A[i] = 7; }|A[i] = B[i] + s;) $(|C[i] = A[i] + 1;) }");
    // values after the loop
    r.push_back("k := $(0|N|2); $(for|map) i=0..$(k|N|k+1) { A[i] = B[i] + $(k|1|i); $(|s = i + 1;|C[i] = A[i] + 2;) } $(C[9] = i + 0;|C[9] = k + 0;|C[9] = s + 0;|for j=0..i { C[j] = 5; })");
    // leaving the function
    r.push_back("for i=0..N { $(A[i] = B[i] + 1;|if (i == 1) { return; }) $(if (i == 1) { return; }|if (i > M) { C[0] = 1; return; }|C[i] = A[i] + 1;) $(C[i] = A[i] + 1;|) }");
    // three loops
    r.push_back("$(for|map) i=0..$(N|~2) { $(for|map) j=0..$(M|~2) { $(for|map) k=0..$(2|~M) { $(A[5*i+j]|A[5*i+k]|C[i+j+k]|~A[k]) = $(A[5*i+j]|C[i+j+k-1]|~A[5*i+k]|~B[5*k+j]) + B[$(5*i+k|k|~5*k+j)]; } } }");
    // two loops in sequence
    r.push_back("$(map|~for) i=$(0|1)..$(N|4|~M) { $(T[i]|A[i]|A[i+1]|A[2*i]) = B[i] + 1; } $(|~D[3] = A[0] + 1;|~A[1] = 5;|~N := 2;) $(for|map) j=$(0|1)..$(N|4|~M) { $(C[j]|B[j]|~A[j]) = $(T[j]|A[j]|A[j+1]|T[0]|A[2*j]|~A[j-1]|~A[0]|~T[N-j]|~T[2*j]) * 2; } $(|D[0] = T[1] + A[1];)");
    r.push_back("map i=0..$(N|~3) { map j=0..$(M|~2) { $(A[5*i+j]|G2[i][j]|A[5*j+i]) = B[5*i+j] + 1; } } $(for|map) k=0..$(N|~3) { $(for|map) l=0..$(M|~2) { C[5*k+l] = $(A[5*k+l]|G2[k][l]|G2[l][k]|A[5*l+k]|A[5*k+l+1]|~A[5*k]|~G2[k][0]) * 2; } } $(|D[0] = A[1] + 1;)");
    r.push_back("map i=0..N { $(s = B[i]; T[i] = s + 1;|{{ s = B[i]; T[i] = s + 1; }}|T[i] = B[i]; A[i] = T[i] + 1;|{{ T[i] = B[i]; A[i] = B[i] + 1; }}|T[i] = B[i]; & k := i;|if (i < M) { T[i] = B[i]; }|T[i] = B[i];) } map j=0..N { $(s = T[j]; C[j] = s + 1;|C[j] = T[j] + T[j];|C[j] = T[j]; C[j+5] = T[j] * 3;|if (j < M) { C[j] = T[j]; }|C[j] = T[j]; B[j] = 0;|C[j] = T[j] + s;|C[j] = T[j] + A[j];|C[j] = T[j]; A[j] = 9;|T[j] = T[j] + 1; C[j] = T[j]; & j2 := j;|C[j] = T[j]; & k := j+1;) } $(|D[0] = T[0]; D[1] = s;|D[0] = A[0] + A[1];)");
    // accesses all alike (local storage)
    r.push_back("for i=$(0|1|~M)..$(N|3|~M+3):$(1|2) { for j=$(0|i|~1)..$(M|3|~i+2):$(1|~2) { $(A[i]|A[j]|A[0]|~A[K]|~G2[i][j]|A[M]) = $(A[i]|A[j]|A[0]|~A[K]|~G2[i][j]|A[M]|~A[3]) + B[$(j|i|~K|~0)]; } }");
    r.push_back("$(for|map) i=$(0|1|2)..$(3|5):$(1|2) { $(A[i] = A[i] + 1;|A[i+2] = A[i+2] + B[i];|A[2*i] = B[i] + A[2*i];|A[0] = A[0] + B[i];|if (i < M) { A[i] = B[i] + 1; }|A[i] = B[i]; C[i] = A[i] + 1;|A[5*K+i] = B[i] + A[K];|T[i] = B[i]; C[i] = T[i] + 1;) }");
    return r;
}
// More single loops, for what decides whether iterations are independent.
inline std::vector<std::string> for_loops() {
    std::vector<std::string> r;
    // privatised values
    r.push_back("$(|s = 5;|T[0] = 5;) for i=0..N { $(s = B[i];|T[0] = B[i];|if (i > 0) { s = B[i]; }|if (i < M) { s = B[i]; } else { s = 3; }|for j=0..M { s = B[j]; }|k := i+1;|if (i < M) { k := 2; }|d = i + 1;|P = &B[i];) $(A[i] = s + 1;|A[i] = T[0] + 1;|A[i] = k + 1;|A[i] = j + 1;|A[i] = P[0] + 1;|C[i] = B[i] + d;|) $(|s = 0;|k := 0;|L[0] = 3;|L[0] = i;|K := 4;) } $(|D[0] = s + 1;|D[0] = T[0] + 1;|D[0] = k + 1;|D[0] = i + 0;|D[0] = j + 0;)");
    // overlaps between iterations
    r.push_back("for i=$(0|1|2)..$(N|M+2):$(1|2|3) { $(A[i]|A[2*i]|A[3*i]|A[i+1]|A[2*i+1]|A[N-i]|A[0]|A[M]) = $(A[i]|A[2*i]|A[2*i+1]|A[i+2]|A[i+3]|A[N-i]|A[0]|A[M]|A[i-2]|B[i]) + 1; }");
    r.push_back("for i=0..N { $(A[i]|A[i+1]|A[2*i]|A[0]|A[i+M]) = B[i] + 1; $(A[i]|A[i+1]|A[2*i+1]|A[0]|A[i+M]|C[i]) = $(A[i]|A[i+1]|A[i-1]|B[i]|A[0]|A[i+M]) + 2; }");
    r.push_back("for i=0..$(N|3) { for j=0..$(M|3|i) { $(A[3*i+j]|A[4*i+j]|A[i+3*j]|A[i+j]|A[M*i+j]|A[i*i]|T[j]|T[i]|G2[i][j]|G2[j][0]|A[j]) = $(B[j]|A[3*i+j]|A[M*i+j]|A[i*i]|G2[i][j]|G2[i+1][j]|G2[i-1][j]) + 1; } $(|C[i] = T[0] + 1;|C[i] = T[i] + 1;) }");
    // local arrays
    r.push_back("for i=0..N { for j=$(0|1)..$(M|3) { T[$(j|j+1|i)] = B[j] + i; } for k=$(0|1)..$(M|3|2) { C[$(5*i+k|k|i)] = T[$(k|k+1|0|i)] + 1; } } $(|D[0] = T[0] + 1;)");
    // writes through what the body changes
    r.push_back("for i=0..N { $(k := k+1;|k := 2*i;|k = B[0];|k := i*i;|) A[$(k|i+k|2*k)] = B[$(i|k)] + 1; $(|k := k+1;|k := 0;) }");
    return r;
}

// A self-signed certificate (P-256) and its key, for the checks only.
#pragma once
#include <cstdint>
static const uint8_t theCert[] = {48,130,1,118,48,130,1,29,160,3,2,1,2,2,20,39,215,188,184,126,15,128,133,176,71,167,231,179,106,193,9,0,37,9,86,48,10,6,8,42,134,72,206,61,4,3,2,48,16,49,14,48,12,6,3,85,4,3,12,5,118,101,114,105,102,48,32,23,13,50,54,49,49,49,57,48,48,51,51,49,56,90,24,15,50,49,50,54,49,48,50,54,48,48,51,51,49,56,90,48,16,49,14,48,12,6,3,85,4,3,12,5,118,101,114,105,102,48,89,48,19,6,7,42,134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,233,134,185,230,236,29,61,204,233,54,238,165,99,114,120,1,239,228,38,111,29,225,4,242,125,255,52,128,62,35,111,75,145,70,161,180,33,229,253,76,117,159,22,53,139,135,156,5,88,25,241,115,200,3,5,185,24,220,10,118,0,129,252,115,163,83,48,81,48,29,6,3,85,29,14,4,22,4,20,10,137,124,236,100,181,128,205,92,41,35,228,116,2,135,37,13,251,42,48,48,31,6,3,85,29,35,4,24,48,22,128,20,10,137,124,236,100,181,128,205,92,41,35,228,116,2,135,37,13,251,42,48,48,15,6,3,85,29,19,1,1,255,4,5,48,3,1,1,255,48,10,6,8,42,134,72,206,61,4,3,2,3,71,0,48,68,2,32,95,183,2,103,62,91,126,140,167,243,211,169,35,157,43,186,127,10,16,243,195,133,243,45,61,164,255,33,139,225,105,78,2,32,126,231,41,229,21,246,86,129,42,226,226,228,45,168,228,96,90,211,96,11,233,40,115,6,60,67,118,50,97,39,177,151};
static const uint8_t theKey[] = {48,119,2,1,1,4,32,163,158,208,25,155,11,208,107,104,224,145,156,65,76,44,82,237,255,158,80,46,237,222,225,59,211,45,220,251,49,208,54,160,10,6,8,42,134,72,206,61,3,1,7,161,68,3,66,0,4,233,134,185,230,236,29,61,204,233,54,238,165,99,114,120,1,239,228,38,111,29,225,4,242,125,255,52,128,62,35,111,75,145,70,161,180,33,229,253,76,117,159,22,53,139,135,156,5,88,25,241,115,200,3,5,185,24,220,10,118,0,129,252,115};

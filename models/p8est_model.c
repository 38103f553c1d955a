#include <p4est_to_p8est.h>
#include <p8est_bits.h>
#ifndef M
#define M(n) p8est_##n
#endif
#include "p4est_model.inc"
#ifndef V_VALIDATE
const int p8est_face_corners[6][4] = { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } };
const int p8est_face_dual[6] = { 1, 0, 3, 2, 5, 4 };
const int p8est_corner_faces[8][3] = { { 0, 2, 4 }, { 1, 2, 4 }, { 0, 3, 4 }, { 1, 3, 4 }, { 0, 2, 5 }, { 1, 2, 5 }, { 0, 3, 5 }, { 1, 3, 5 } };
#endif

#ifndef VCHK_H
#define VCHK_H
#include <stddef.h>
void vchk_frame_begin (void);
void vchk_frame_allow (const void *p, size_t n);
void vchk_frame_whole (const void *p);
void vchk_frame_end (const char *fn);
void vchk_req (int c, const char *id);
void vchk_ens (int c, const char *id);
#endif

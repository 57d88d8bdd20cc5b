#pragma once
// CRT low level I/O used by FileStream::SetLength: routed to the simulator.
extern "C" {
int simw_sopen_s(int*, const char*, int, int, int);
int simw_chsize(int, long);
int simw_close(int);
}
#define _O_RDWR 2
#define _O_CREAT 0x100
#define _SH_DENYNO 0x40
#define _S_IREAD 0x100
#define _S_IWRITE 0x80
#define _sopen_s simw_sopen_s
#define _chsize simw_chsize
#define _chsize_s simw_chsize
#define _close simw_close

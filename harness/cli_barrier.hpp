#pragma once
void evLog(int kind, int t, long v); int objId(void* p);
void cliExplicit(int c, int p, int E, int regions);
void cliLazy(int how, int c, int p, int E, int rounds);
void cliReduce(int kind, int c, int p, int E, int regions, int (*valOf)(int, int));
void cliLoadImba(int how, int c, int p, int E, int rounds);

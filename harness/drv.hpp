// Driver shared by every harness: initialises the library exactly as a user
// would, writes a memory image (data + generated code) for the symbolic
// executor, and replays concrete counterexamples against the same code.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <algorithm>

struct Entry { const char *name; void *fn; };
static std::vector<Entry> g_entries;
struct Sym { const char *name; const void *p; size_t n; };
static std::vector<Sym> g_syms;
#define ENT(name, f) g_entries.push_back(Entry{name, (void*)(f)})
#define SYM(name, p, n) g_syms.push_back(Sym{name, (const void*)(p), (size_t)(n)})

static const uint64_t ARENA = 0x10000000000ull;
static const size_t ARENA_SIZE = 1 << 20;

static void dumpImage(const char *path)
{
	FILE *o = fopen(path, "wb");
	std::ifstream maps("/proc/self/maps");
	std::string line;
	while (std::getline(maps, line)) {
		unsigned long long b, e; char perm[8]; char file[1024] = "";
		if (sscanf(line.c_str(), "%llx-%llx %7s %*s %*s %*s %1023[^\n]", &b, &e, perm, file) < 3) continue;
		if (perm[0] != 'r') continue;
		if (strstr(file, ".so") || strstr(file, "[v") || strstr(file, "[stack") || strstr(file, "locale")) continue;
		if (b == ARENA) continue;
		uint64_t h[2] = { b, e - b };
		fwrite(h, 1, 16, o);
		fwrite((void*)b, 1, e - b, o);
	}
	fclose(o);
}

// calls fn with marked callee-saved registers and marked words above the return address; out: rax, rbx, rbp, r12..r15, rsp
// change, number of damaged words of the caller's frame
extern "C" { void frame_call(void *fn, const uint64_t *a, uint64_t *out); uint64_t frame_rsp, frame_out; }
asm(R"(
.intel_syntax noprefix
.text
.globl frame_call
frame_call:
	push rbp
	push rbx
	push r12
	push r13
	push r14
	push r15
	sub rsp, 8
	mov frame_rsp[rip], rsp
	mov frame_out[rip], rdx
	mov r11, rdi
	mov r10, rsi
	sub rsp, 512
	mov rcx, 64
	movabs rax, 0x5a5aa5a5c3c33c3c
	mov rdi, rsp
	rep stosq
	mov rdi, [r10]
	mov rsi, [r10+8]
	mov rdx, [r10+16]
	mov rcx, [r10+24]
	mov r8, [r10+32]
	mov r9, [r10+40]
	movabs rbx, 0x1111222233334444
	movabs rbp, 0x2111222233334444
	movabs r12, 0x3111222233334444
	movabs r13, 0x4111222233334444
	movabs r14, 0x5111222233334444
	movabs r15, 0x6111222233334444
	call r11
	cld
	mov r11, frame_out[rip]
	mov [r11], rax
	mov [r11+8], rbx
	mov [r11+16], rbp
	mov [r11+24], r12
	mov [r11+32], r13
	mov [r11+40], r14
	mov [r11+48], r15
	mov rax, rsp
	mov rsp, frame_rsp[rip]
	sub rsp, 512
	sub rax, rsp
	mov [r11+56], rax
	movabs rax, 0x5a5aa5a5c3c33c3c
	xor rdx, rdx
	mov rcx, 64
	mov rdi, rsp
1:	cmp [rdi], rax
	je 2f
	inc rdx
2:	add rdi, 8
	dec rcx
	jnz 1b
	mov [r11+64], rdx
	add rsp, 520
	pop r15
	pop r14
	pop r13
	pop r12
	pop rbx
	pop rbp
	ret
.att_syntax prefix
)");

static sigjmp_buf g_jb;
static volatile int g_sig;
static void onsig(int s) { g_sig = s; siglongjmp(g_jb, 1); }

static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static int serve()
{
	void *p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0);
	if (p != (void*)ARENA) { fprintf(stderr, "arena\n"); return 3; }
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER;
	stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
	sa.sa_flags |= SA_ONSTACK;
	sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		std::string cmd; is >> cmd;
		if (cmd == "dump") { std::string f; is >> f; dumpImage(f.c_str()); printf("ok\n"); }
		else if (cmd == "table") {
			for (auto& e : g_entries) printf("E %s %llx\n", e.name, (unsigned long long)(uintptr_t)e.fn);
			for (auto& e : g_syms) printf("S %s %llx %zu\n", e.name, (unsigned long long)(uintptr_t)e.p, e.n);
			printf("ok\n");
		} else if (cmd == "w") {
			uint64_t a; std::string h; is >> std::hex >> a >> h;
			uint8_t *q = (uint8_t*)a;
			for (size_t i = 0; i + 1 < h.size(); i += 2) *q++ = hexv(h[i]) * 16 + hexv(h[i+1]);
			printf("ok\n");
		} else if (cmd == "r") {
			uint64_t a; size_t n; is >> std::hex >> a >> std::dec >> n;
			std::string s; char b[3];
			for (size_t i = 0; i < n; i++) { sprintf(b, "%02x", ((uint8_t*)a)[i]); s += b; }
			printf("%s\n", s.c_str());
		} else if (cmd == "c") {
			uint64_t f, a[6] = {0,0,0,0,0,0}; is >> std::hex >> f;
			for (int i = 0; i < 6; i++) is >> std::hex >> a[i];
			g_sig = 0;
			alarm(20);
			if (sigsetjmp(g_jb, 1) == 0) {
				std::string ex; uint64_t r = 0;
				try { r = ((uint64_t(*)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t))f)(a[0],a[1],a[2],a[3],a[4],a[5]); }
				catch (std::exception& e) { ex = "exc"; }
				catch (...) { ex = "exc"; }
				if (ex.empty()) printf("ret %llx\n", (unsigned long long)r); else printf("%s\n", ex.c_str());
			} else printf("sig %d\n", g_sig);
			alarm(0);
		} else if (cmd == "C") {
			uint64_t f, a[6] = {0,0,0,0,0,0}, o[9]; is >> std::hex >> f;
			for (int i = 0; i < 6; i++) is >> std::hex >> a[i];
			g_sig = 0; alarm(20);
			if (sigsetjmp(g_jb, 1) == 0) {
				frame_call((void*)f, a, o);
				static const uint64_t want[] = { 0x1111222233334444ull, 0x2111222233334444ull, 0x3111222233334444ull, 0x4111222233334444ull, 0x5111222233334444ull, 0x6111222233334444ull };
				unsigned bad = 0;
				for (int i = 0; i < 6; i++) if (o[i + 1] != want[i]) bad |= 1u << i;
				printf("ret %llx %x %lld %lld\n", (unsigned long long)o[0], bad, (long long)o[7], (long long)o[8]);
			} else printf("sig %d\n", g_sig);
			alarm(0);
		} else if (cmd == "b") {
			// batch replay: b fn a0..a5 nin (addr len)* nout (addr len)* count hexdata
			uint64_t f, a[6]; is >> std::hex >> f;
			for (int i = 0; i < 6; i++) is >> std::hex >> a[i];
			size_t nin, nout, cnt; std::vector<std::pair<uint64_t, size_t> > in, out;
			is >> std::dec >> nin;
			for (size_t i = 0; i < nin; i++) { uint64_t p; size_t n; is >> std::hex >> p >> std::dec >> n; in.push_back(std::make_pair(p, n)); }
			is >> nout;
			for (size_t i = 0; i < nout; i++) { uint64_t p; size_t n; is >> std::hex >> p >> std::dec >> n; out.push_back(std::make_pair(p, n)); }
			std::string h; is >> cnt >> h;
			const char *q = h.c_str();
			for (volatile size_t k = 0; k < cnt; k++) {
				for (size_t i = 0; i < nin; i++) { uint8_t *d = (uint8_t*)in[i].first; for (size_t j = 0; j < in[i].second; j++, q += 2) d[j] = hexv(q[0]) * 16 + hexv(q[1]); }
				g_sig = 0; alarm(20);
				if (sigsetjmp(g_jb, 1) == 0) {
					std::string ex; uint64_t r = 0;
					try { r = ((uint64_t(*)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t))f)(a[0],a[1],a[2],a[3],a[4],a[5]); }
					catch (...) { ex = "exc"; }
					if (ex.empty()) printf("%llx:", (unsigned long long)r); else printf("%s:", ex.c_str());
				} else printf("sig%d:", g_sig);
				alarm(0);
				static const char *hx = "0123456789abcdef"; std::string s;
				for (size_t i = 0; i < nout; i++) { uint8_t *d = (uint8_t*)out[i].first; for (size_t j = 0; j < out[i].second; j++) { s += hx[d[j] >> 4]; s += hx[d[j] & 15]; } }
				printf("%s ", s.c_str());
			}
			printf("\n");
		} else printf("?\n");
		fflush(stdout);
	}
	return 0;
}

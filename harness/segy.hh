// Helpers shared by the file harnesses: raw SEG-Y images built and inspected without the library.
#pragma once
#include "sx.h"
#include "fakempi.h"
#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/WriteSEGY.hh"
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
using namespace exseis::PIOL;
using exseis::utils::Trace_value;
static const size_t HO = 3600, MD = 240;
inline size_t dosz(size_t ns) { return MD + 4 * ns; }
inline size_t fsz(size_t nt, size_t ns) { return HO + nt * dosz(ns); }
inline void put16(unsigned char* p, unsigned v) { p[0] = v >> 8; p[1] = v; }
inline void put32(unsigned char* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
inline unsigned get16(const unsigned char* p) { return (p[0] << 8) | p[1]; }
inline uint32_t get32(const unsigned char* p) { return ((uint32_t)p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3]; }
// header of an existing file: format code, sample count, interval in microseconds, blank ASCII text
inline void rawHeader(unsigned char* d, unsigned ns, unsigned incus, unsigned fmt) {
    memset(d, ' ', 3200); memset(d + 3200, 0, 400);
    put16(d + 3216, incus); put16(d + 3220, ns); put16(d + 3224, fmt); put16(d + 3500, 256); put16(d + 3502, 1);
}
inline FFile* rawFile(const char* name, size_t nt, size_t ns, size_t extra = 0, unsigned fmt = 5, unsigned incus = 1000) {
    FFile* f = ff_create(name, fsz(nt, ns) + extra, fsz(nt, ns)); rawHeader(f->data, ns, incus, fmt); return f;
}
inline unsigned char* rawMD(FFile* f, size_t i, size_t ns) { return f->data + HO + i * dosz(ns); }
inline unsigned char* rawDF(FFile* f, size_t i, size_t ns) { return f->data + HO + i * dosz(ns) + MD; }

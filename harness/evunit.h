// One translation unit's view of the clock, the evidence counter and the stamps.
#pragma once
#include "Narsese/include/Sentence.h"
#include "Global.h"

struct Unit
{
    void (*set_time)(unsigned long);
    unsigned long (*get_time)();
    EVIDENCE::pBase (*fresh)();
    SENTENCE::pStamp (*stamp)(bool);
    SENTENCE::pStamp (*stamp_plain)();
    SENTENCE::pStamp (*stamp_at)(int);
    SENTENCE::pStamp (*stamp_full)(int, int, int, EVIDENCE::pBase, int);
    int (*tense)(SENTENCE::Stamp &);
};

#define UNIT(name)                                                                                            \
    static void u_set(unsigned long t) { GLOBAL::time = t; }                                                  \
    static unsigned long u_get() { return GLOBAL::time; }                                                     \
    static EVIDENCE::pBase u_fresh() { return EVIDENCE::pBase(new EVIDENCE::Base()); }                        \
    static SENTENCE::pStamp u_stamp(bool e) { return SENTENCE::Stamp::create(e); }                            \
    static SENTENCE::pStamp u_plain() { return SENTENCE::pStamp(new SENTENCE::Stamp()); }                     \
    static SENTENCE::pStamp u_at(int t) { return SENTENCE::Stamp::create((signed int)t); }                    \
    static SENTENCE::pStamp u_full(int o, int c, int p, EVIDENCE::pBase b, int e)                             \
    {                                                                                                         \
        if (e < 0)                                                                                            \
            return SENTENCE::Stamp::create((signed int)o, (signed int)c, (signed int)p, b);                   \
        return SENTENCE::Stamp::create((signed int)o, (signed int)c, (signed int)p, b, e != 0);               \
    }                                                                                                         \
    static int u_tense(SENTENCE::Stamp &s) { return (int)s.tense(); }                                         \
    extern const Unit name;                                                                                   \
    const Unit name = {u_set, u_get, u_fresh, u_stamp, u_plain, u_at, u_full, u_tense};

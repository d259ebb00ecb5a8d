/* C27, C28, C29: unit, factor and text of value-information codes.
 *   NORM=t   normalise code t*100h+c (t 0 primary, 1 FDh, 2 FBh) with value VALUE
 *   TEXT=t   text of the same codes
 *   FIXN     normalise fixed-data units;  FIXT  their texts
 *   MEDIA, MISC, PRODUCT  other lookups
 *   LO, HI   range of the symbolic code
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
struct IN { u8 c, ext, k, a, b; u8 d[8]; u64 val; int e; };
#define VP_INT_EXACT 2
#define VP_STR_MAX 40
#if defined(NORM) || defined(SCALE) || defined(LINEAR) || defined(FIXN) || defined(FIXV)
#define VP_SHARE_STRDUP
#endif
#include "vp_input.h"

/* ---- the protocol's tables ------------------------------------------------ */
struct ref { const char *unit, *quantity; int e; double t; int bad; };
#define R(u, q, x) do { r.unit = u; r.quantity = q; r.e = (x); return r; } while (0)
#define T(q, s) do { r.unit = "s"; r.quantity = q; r.t = (s); return r; } while (0)
static double nn(int n) { return n == 0 ? 1. : n == 1 ? 60. : n == 2 ? 3600. : 86400.; }
static double pp(int n) { return n == 0 ? 3600. : n == 1 ? 86400. : n == 2 ? 2629743.83 : 31556926.; }

static struct ref ref_primary(int c)
{
    struct ref r = { "", "", 0, 0, 0 };
    int n3 = c & 7, n2 = c & 3;
    if (c < 0x08) R("Wh", "Energy", n3 - 3);
    if (c < 0x10) R("J", "Energy", n3);
    if (c < 0x18) R("m^3", "Volume", n3 - 6);
    if (c < 0x20) R("kg", "Mass", n3 - 3);
    if (c < 0x24) T("On time", nn(n2));
    if (c < 0x28) T("Operating time", nn(n2));
    if (c < 0x30) R("W", "Power", n3 - 3);
    if (c < 0x38) R("J/h", "Power", n3);
    if (c < 0x40) R("m^3/h", "Volume flow", n3 - 6);
    if (c < 0x48) R("m^3/min", "Volume flow", n3 - 7);
    if (c < 0x50) R("m^3/s", "Volume flow", n3 - 9);
    if (c < 0x58) R("kg/h", "Mass flow", n3 - 3);
    if (c < 0x5C) R("°C", "Flow temperature", n2 - 3);
    if (c < 0x60) R("°C", "Return temperature", n2 - 3);
    if (c < 0x64) R("K", "Temperature difference", n2 - 3);
    if (c < 0x68) R("°C", "External temperature", n2 - 3);
    if (c < 0x6C) R("bar", "Pressure", n2 - 3);
    if (c == 0x6C) R("-", "Time point (date)", 0);
    if (c == 0x6D) R("-", "Time point (date & time)", 0);
    if (c == 0x6E) R("Units for H.C.A.", "H.C.A.", 0);
    if (c == 0x6F) R("Reserved", "Reserved", -99);
    if (c >= 0x70 && c < 0x74) T("Averaging Duration", nn(n2));
    if (c >= 0x74 && c < 0x78) T("Actuality Duration", nn(n2));
    if (c == 0x78) R("", "Fabrication No", 0);
    if (c == 0x79) R("", "(Enhanced) Identification", 0);
    if (c == 0x7A) R("", "Bus Address", 0);
    if (c == 0x7E) R("", "Any VIF", 0);
    if (c == 0x7F) R("", "Manufacturer specific", 0);
    r.bad = 1;
    return r;
}
static struct ref ref_fd(int c)
{
    struct ref r = { "", "", 0, 0, 0 };
    static const char *const names[] = {
        "Access Number (transmission count)", "Medium", "Manufacturer", "Parameter set identification", "Model / Version", "Hardware version", "Firmware version", "Software version",
        "Customer location", "Customer", "Access Code User", "Access Code Operator", "Access Code System Operator", "Access Code Developer", "Password", "Error flags", "Error mask" };
    static const char *const names2[] = { "Reset counter", "Cumulation counter", "Control signal", "Day of week", "Week number", "Time point of day change",
        "State of parameter activation", "Special supplier information" };
    if (c < 0x04) R("Currency units", "Credit", c - 3);
    if (c < 0x08) R("Currency units", "Debit", c - 7);
    if (c < 0x19) R("", names[c - 8], 0);
    if (c == 0x1A) R("", "Digital Output", 0);
    if (c == 0x1B) R("", "Digital Input", 0);
    if (c == 0x1C) R("Baud", "Baudrate", 0);
    if (c == 0x1D) R("Bittimes", "Response delay time", 0);
    if (c == 0x1E) R("", "Retry", 0);
    if (c == 0x20) R("", "First storage # for cyclic storage", 0);
    if (c == 0x21) R("", "Last storage # for cyclic storage", 0);
    if (c == 0x22) R("", "Size of storage block", 0);
    if (c >= 0x24 && c < 0x28) T("Storage interval", nn(c & 3));
    if (c == 0x28 || c == 0x29) T("Storage interval", pp(c - 0x26));
    if (c >= 0x2C && c < 0x30) T("Duration since last readout", nn(c & 3));
    if (c >= 0x31 && c < 0x34) T("Duration of tariff", nn(c & 3));
    if (c >= 0x34 && c < 0x38) T("Period of tariff", nn(c & 3));
    if (c == 0x38 || c == 0x39) T("Period of tariff", pp(c - 0x36));
    if (c == 0x3A) R("", "Dimensionless", 0);
    if (c >= 0x40 && c < 0x50) R("V", "Voltage", (c & 15) - 9);
    if (c >= 0x50 && c < 0x60) R("A", "Current", (c & 15) - 12);
    if (c >= 0x60 && c < 0x68) R("", names2[c - 0x60], 0);
    if (c >= 0x68 && c < 0x6C) T("Duration since last cumulation", pp(c & 3));
    if (c >= 0x6C && c < 0x70) T("Operating time battery", pp(c & 3));
    if (c == 0x70) R("", "Date and time of battery change", 0);
    R("Reserved", "Reserved", 0);
}
static struct ref ref_fb(int c)
{
    struct ref r = { "", "", 0, 0, 0 };
    int n1 = c & 1, n2 = c & 3;
    if (c < 0x02) R("Wh", "Energy", n1 + 5);
    if (c == 0x08 || c == 0x09) R("J", "Energy", n1 + 8);
    if (c == 0x10 || c == 0x11) R("m^3", "Volume", n1 + 2);
    if (c == 0x18 || c == 0x19) R("kg", "Mass", n1 + 5);
    if (c == 0x21) R("feet^3", "Volume", -1);
    if (c == 0x22 || c == 0x23) R("American gallon", "Volume", n1 - 1);
    if (c == 0x24) R("American gallon/min", "Volume flow", -3);
    if (c == 0x25) R("American gallon/min", "Volume flow", 0);
    if (c == 0x26) R("American gallon/h", "Volume flow", 0);
    if (c == 0x28 || c == 0x29) R("W", "Power", n1 + 5);
    if (c == 0x30 || c == 0x31) R("J/h", "Power", n1 + 8);
    if (c >= 0x58 && c < 0x5C) R("°F", "Flow temperature", n2 - 3);
    if (c >= 0x5C && c < 0x60) R("°F", "Return temperature", n2 - 3);
    if (c >= 0x60 && c < 0x64) R("°F", "Temperature difference", n2 - 3);
    if (c >= 0x64 && c < 0x68) R("°F", "External temperature", n2 - 3);
    if (c >= 0x70 && c < 0x74) R("°F", "Cold / Warm Temperature Limit", n2 - 3);
    if (c >= 0x74 && c < 0x78) R("°C", "Cold / Warm Temperature Limit", n2 - 3);
    if (c >= 0x78) R("W", "Cumul count max power", (c & 7) - 3);
    R("Reserved", "Reserved", 0);
}
static struct ref ref_fixed(int c)
{
    struct ref r = { "", "", 0, 0, 0 };
    if (c < 0x02) { r.bad = 1; r.unit = c ? "D,M,Y" : "h,m,s"; r.quantity = "Time"; return r; }
    if (c < 0x0B) R("Wh", "Energy", c - 0x02);
    if (c < 0x14) R("J", "Energy", c - 0x0B + 3);
    if (c < 0x1D) R("W", "Power", c - 0x14);
    if (c < 0x26) R("J/h", "Power", c - 0x1D + 3);
    if (c < 0x2F) R("m^3", "Volume", c - 0x26 - 6);
    if (c < 0x38) R("m^3/h", "Volume flow", c - 0x2F - 6);
    if (c == 0x38) R("°C", "Temperature", -3);
    if (c == 0x39) R("Units for H.C.A.", "H.C.A.", 0);
    if (c < 0x3E) R("Reserved", "Reserved", -99);
    if (c == 0x3E) R("", "historic", 0);
    R("", "No units", 0);
}
/* smallest and largest acceptable factor: the table's value up to rounding */
#define E10(k, v) case k: *lo = v * (1 - 1e-13); *hi = v * (1 + 1e-13); break
static void factor(const struct ref *r, double *lo, double *hi)
{
    if (r->t != 0) {
        *lo = r->t == 1 ? 1 : r->t == 60 ? 60 : r->t == 3600 ? 3600 : r->t == 86400 ? 86400 : r->t == 2629743.83 ? 2629743.83 * (1 - 1e-13) : 31556926;
        *hi = r->t == 1 ? 1 : r->t == 60 ? 60 : r->t == 3600 ? 3600 : r->t == 86400 ? 86400 : r->t == 2629743.83 ? 2629743.83 * (1 + 1e-13) : 31556926;
        return;
    }
    switch (r->e) {
    E10(-12, 1e-12); E10(-11, 1e-11); E10(-10, 1e-10); E10(-9, 1e-9); E10(-8, 1e-8); E10(-7, 1e-7); E10(-6, 1e-6); E10(-5, 1e-5); E10(-4, 1e-4); E10(-3, 1e-3); E10(-2, 1e-2); E10(-1, 1e-1);
    case 0: *lo = *hi = 1; break;
    E10(1, 1e1); E10(2, 1e2); E10(3, 1e3); E10(4, 1e4); E10(5, 1e5); E10(6, 1e6); E10(7, 1e7); E10(8, 1e8); E10(9, 1e9); E10(10, 1e10); E10(11, 1e11);
    default: *lo = *hi = 0;
    }
}
static void same(const char *a, const char *b, size_t max, const char *w)
{
    size_t i;
    int end = 0;
    for (i = 0; i < max && !end; i++) {
        VP_ASSERT(a[i] == b[i], "text");
        if (!a[i] || !b[i]) end = 1;
    }
    VP_MODEL(end, "text within the modelled length");
}

#if defined(TEXT) || defined(FIXT)
/* one code, which the caller has split off the symbolic one */
static void text_of(int c, int ext)
{
        static const char *const p10[20] = { "1e-12 ", "1e-11 ", "1e-10 ", "1e-9 ", "1e-8 ", "1e-7 ", "my", "1e-5 ", "1e-4 ", "m", "1e-2 ", "1e-1 ", "", "10 ", "100 ", "k", "10 k", "100 k", "M", "1e7 " };
        static const char *const durn[4] = { "second(s)", "minute(s)", "hour(s)", "day(s)" }, *const durp[4] = { "hour(s)", "day(s)", "month(s)", "year(s)" }, *const dur[4] = { "(seconds)", "(minutes)", "(hours)", "(days)" };
        const char *h = NULL, *p = "", *t = "";
        int e = -100;
        u8 x = c | ext;
#define H(a, ex, b) { h = a; e = ex; t = b; }
#ifdef FIXT
        static const char *const pre[9] = { "", "10 ", "100 ", "k", "10 k", "100 k", "M", "10 M", "100 M" };
        static const char *const jou[9] = { "kJ", "10 kJ", "100 kJ", "MJ", "10 MJ", "100 MJ", "GJ", "10 GJ", "100 GJ" };
        static const char *const vol[9] = { "ml", "10 ml", "100 ml", "l", "10 l", "100 l", "m^3", "10 m^3", "100 m^3" };
        if (c == 0) h = "h,m,s"; else if (c == 1) h = "D,M,Y";
        else if (c < 0x0B) { h = pre[c - 2]; t = "Wh"; } else if (c < 0x14) h = jou[c - 0x0B];
        else if (c < 0x1D) { h = pre[c - 0x14]; t = "W"; } else if (c < 0x26) { h = jou[c - 0x1D]; t = "/h"; }
        else if (c < 0x2F) h = vol[c - 0x26]; else if (c < 0x38) { h = vol[c - 0x2F]; t = "/h"; }
        else if (c == 0x38) h = "1e-3 °C"; else if (c == 0x39) h = "units for HCA"; else if (c < 0x3E) h = "reserved";
        else h = c == 0x3E ? "reserved but historic" : "without units";
        const char *text = mbus_data_fixed_unit(c | ext);
#elif TEXT == 0
        int n3 = c & 7, n2 = c & 3;
        if (c < 0x08) H("Energy (", n3 - 3, "Wh)") else if (c < 0x10) H("Energy (", n3, "J)") else if (c < 0x18) H("Volume (", n3 - 6, " m^3)")
        else if (c < 0x20) H("Mass (", n3 - 3, "kg)") else if (c < 0x24) H("On time ", -100, dur[n2]) else if (c < 0x28) H("Operating time ", -100, dur[n2])
        else if (c < 0x30) H("Power (", n3 - 3, "W)") else if (c < 0x38) H("Power (", n3, "J/h)") else if (c < 0x40) H("Volume flow (", n3 - 6, " m^3/h)")
        else if (c < 0x48) H("Volume flow (", n3 - 7, " m^3/min)") else if (c < 0x50) H("Volume flow (", n3 - 9, " m^3/s)") else if (c < 0x58) H("Mass flow (", n3 - 3, " kg/h)")
        else if (c < 0x5C) H("Flow temperature (", n2 - 3, "deg C)") else if (c < 0x60) H("Return temperature (", n2 - 3, "deg C)") else if (c < 0x64) H("Temperature Difference (", n2 - 3, " deg C)")
        else if (c < 0x68) H("External temperature (", n2 - 3, " deg C)") else if (c < 0x6C) H("Pressure (", n2 - 3, " bar)")
        else if (c == 0x6C) h = "Time Point (date)"; else if (c == 0x6D) h = "Time Point (time & date)"; else if (c == 0x6E) h = "Units for H.C.A."; else if (c == 0x6F) h = "Reserved";
        else if (c < 0x74) H("Averaging Duration ", -100, dur[n2]) else if (c < 0x78) H("Actuality Duration ", -100, dur[n2])
        else if (c == 0x78) h = "Fabrication number"; else if (c == 0x7A) h = "Bus Address"; else if (c == 0x7C) h = "Custom VIF"; else if (c == 0x7F) h = "Manufacturer specific";
        const char *text = mbus_vif_unit_lookup(x);
#else
        int n1 = c & 1, n2 = c & 3;
        mbus_value_information_block vib;
        memset(&vib, 0, sizeof vib);
        vib.nvife = 1; vib.vife[0] = x;
#if TEXT == 1
        vib.vif = 0xFD;
        static const char *const names[] = {
            "Access Number (transmission count)", "Medium (as in fixed header)", "Manufacturer (as in fixed header)", "Parameter set identification", "Model / Version", "Hardware version", "Firmware version", "Software version",
            "Customer location", "Customer", "Access Code User", "Access Code Operator", "Access Code System Operator", "Access Code Developer", "Password", "Error flags", "Error mask", "Reserved",
            "Digital output (binary)", "Digital input (binary)", "Baudrate", "response delay time", "Retry", "Reserved", "First storage # for cyclic storage", "Last storage # for cyclic storage", "Size of storage block", "Reserved" };
        static const char *const names2[] = { "Reset counter", "Cumulation counter", "Control signal", "Day of week", "Week number", "Time point of day change", "State of parameter activation", "Special supplier information" };
        if (c < 0x04) H("Credit of ", n2 - 3, " of the nominal local legal currency units") else if (c < 0x08) H("Debit of ", n2 - 3, " of the nominal local legal currency units")
        else if (c < 0x24) h = names[c - 8]; else if (c < 0x28) H("Storage interval ", -100, durn[n2]) else if (c < 0x2A) H("Storage interval ", -100, durp[c - 0x26])
        else if (c < 0x2C) h = "Reserved"; else if (c < 0x30) H("Duration since last readout ", -100, durn[n2]) else if (c == 0x30) h = "Start (date/time) of tariff";
        else if (c < 0x34) H("Duration of tariff ", -100, durn[n2]) else if (c < 0x38) H("Period of tariff ", -100, durn[n2]) else if (c == 0x38) h = "Period of tariff months(s)"; else if (c == 0x39) h = "Period of tariff year(s)";
        else if (c == 0x3A) h = "dimensionless / no VIF"; else if (c < 0x40) h = "Reserved"; else if (c < 0x50) H("", (c & 15) - 9, " V") else if (c < 0x60) H("", (c & 15) - 12, " A")
        else if (c < 0x68) h = names2[c - 0x60]; else if (c < 0x6C) H("Duration since last cumulation ", -100, durp[n2]) else if (c < 0x70) H("Operating time battery ", -100, durp[n2])
        else h = c == 0x70 ? "Date and time of battery change" : "Reserved VIF extension";
#else
        vib.vif = 0xFB;
        if (c < 2) H("Energy (", -100, n1 ? "MWh)" : "0.1 MWh)") else if (c == 8 || c == 9) H("Energy (", -100, n1 ? "GJ)" : "0.1 GJ)") else if (c == 0x10 || c == 0x11) H("Volume (", n1 + 2, "m3)")
        else if (c == 0x18 || c == 0x19) H("Mass (", n1 + 2, "t)") else if (c == 0x21) h = "Volume (0.1 feet^3)"; else if (c == 0x22 || c == 0x23) H("Volume (", -100, n1 ? "american gallon)" : "0.1 american gallon)")
        else if (c == 0x24) h = "Volume flow (0.001 american gallon/min)"; else if (c == 0x25) h = "Volume flow (american gallon/min)"; else if (c == 0x26) h = "Volume flow (american gallon/h)";
        else if (c == 0x28 || c == 0x29) H("Power (", -100, n1 ? "MW)" : "0.1 MW)") else if (c == 0x30 || c == 0x31) H("Power (", -100, n1 ? "GJ/h)" : "0.1 GJ/h)")
        else if (c >= 0x58 && c < 0x5C) H("Flow Temperature (", n2 - 3, " degree F)") else if (c >= 0x5C && c < 0x60) H("Return Temperature (", n2 - 3, " degree F)") else if (c >= 0x60 && c < 0x64) H("Temperature Difference (", n2 - 3, " degree F)")
        else if (c >= 0x64 && c < 0x68) H("External Temperature (", n2 - 3, " degree F)") else if (c >= 0x70 && c < 0x74) H("Cold / Warm Temperature Limit (", n2 - 3, " degree F)")
        else if (c >= 0x74 && c < 0x78) H("Cold / Warm Temperature Limit (", n2 - 3, " degree C)") else if (c >= 0x78) H("cumul. count max power (", (c & 7) - 3, " W)")
#endif
        const char *text = mbus_vib_unit_lookup(&vib);
#endif
        if (e != -100) p = p10[e + 12];
        /* compare text with h p t; codes without a reference need a terminated text only */
        size_t i, j = 0;
        int part = 0, end = 0;
        for (i = 0; i < 80; i++) if (!end) {
            if (h) {
                while (part < 2 && (part == 0 ? h[j] : p[j]) == 0) { part++; j = 0; }
                char w = part == 0 ? h[j] : part == 1 ? p[j] : t[j];
                VP_ASSERT(text[i] == w, "unit text");
                j++;
            }
            if (!text[i]) end = 1;
        }
        VP_ASSERT(end, "terminated");
}
#endif

int main(void)
{
    VP_INPUT;
    int c = IN.c;
    VP_ASSUME(c >= LO && c <= HI);
#ifdef NORM
    {
        mbus_value_information_block vib;
        memset(&vib, 0, sizeof vib);
        struct ref r = NORM == 0 ? ref_primary(c) : NORM == 1 ? ref_fd(c) : ref_fb(c);
        if (NORM == 0) vib.vif = c | (IN.ext & 0x80); else { vib.vif = NORM == 1 ? 0xFD : 0xFB; vib.vife[0] = c | (IN.ext & 0x80); vib.nvife = 1 + (IN.k & 1); vib.vife[1] = IN.d[0]; }
#if NORM == 0
        if (vib.vif & 0x80) { vib.nvife = 1; vib.vife[0] = IN.d[0]; VP_ASSUME((IN.d[0] & 0x7F) < 0x70 || (IN.d[0] & 0x7F) == 0x7C || (IN.d[0] & 0x7F) > 0x7D); }
        VP_ASSUME(c != 0x7C && vib.vif != 0xFB && vib.vif != 0xFD);
#endif
        char *unit = NULL, *quantity = NULL;
        double v = 123, lo = 0, hi = 0;
        int rc = mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity);
        if (r.bad) { VP_ASSERT(rc < 0, "a code outside the tables is an error");
#ifdef BADCODES
            VP_REACH("bad");
#endif
        } else {
            VP_ASSERT(rc == 0, "known code");
            factor(&r, &lo, &hi);
            VP_ASSERT(v >= lo && v <= hi, "factor");
            VP_ASSERT(unit && quantity, "texts");
            same(unit, r.unit, 40, "unit");
            same(quantity, r.quantity, 40, "quantity");
            VP_REACH("known");
        }
        vp_free(unit); vp_free(quantity);
        VP_ASSERT(vp_live == 0, "nothing else is allocated");
    }
#endif
#ifdef SCALE
    {   /* the value is scaled, and corrected by the VIFE that follows a primary VIF */
        mbus_value_information_block vib;
        memset(&vib, 0, sizeof vib);
        static const double val[4] = { 1.0, -2.0, 1e6, 12345678.0 };
        double x = SCALEV;
        vib.vif = SCALE; vib.nvife = 1; vib.vife[0] = IN.c;
        double v = 0, f = SCALEF, e = 0;
        char *unit = NULL, *quantity = NULL;
        int rc = mbus_vib_unit_normalize(&vib, x, &unit, &v, &quantity);
        VP_ASSERT(rc == 0, "known code");
        e = x * f;
        int code = IN.c & 0x7F;
        double lo = 0, hi = 0, y = 0;
        switch (code) {
        case 0x70: y = e * 1e-6; break; case 0x71: y = e * 1e-5; break; case 0x72: y = e * 1e-4; break; case 0x73: y = e * 1e-3; break;
        case 0x74: y = e * 1e-2; break; case 0x75: y = e * 1e-1; break; case 0x76: y = e; break; case 0x77: y = e * 10; break;
        case 0x78: y = e + 1e-3; break; case 0x79: y = e + 1e-2; break; case 0x7A: y = e + 1e-1; break; case 0x7B: y = e + 1; break;
        case 0x7D: y = e * 1000; break;
        default: y = e;
        }
        lo = y < 0 ? y * (1 + 1e-13) : y * (1 - 1e-13); hi = y < 0 ? y * (1 - 1e-13) : y * (1 + 1e-13);
        VP_ASSERT(v >= lo && v <= hi, "correction");
        VP_REACH("corrected");
        vp_free(unit); vp_free(quantity);
    }
#endif
#ifdef LINEAR
    {   /* any value at all */
        union { u64 u; double d; } x;
#ifdef SMALL
        x.d = (double)(short)IN.val;
#else
        x.u = IN.val;
#endif
        char *unit = NULL, *quantity = NULL;
        double v = 0;
        int rc = mbus_vif_unit_normalize(LINEAR, x.d, &unit, &v, &quantity);
        double e = x.d * SCALEF;
        VP_ASSERT(rc == 0, "known code");
        VP_ASSERT(v == e || (v != v && e != e), "value times factor");
        VP_REACH("scaled");
        vp_free(unit); vp_free(quantity);
    }
#endif
#ifdef CUSTOM
    {
        mbus_value_information_block vib;
        memset(&vib, 0, sizeof vib);
        vib.vif = CUSTOM; vib.nvife = CUSTOM >> 7; vib.vife[0] = CUSTOM & 0x80 ? 0x70 | (IN.c & 7) : 0;
        for (int i = 0; i < 8; i++) vib.custom_vif[i] = IN.d[i];
        char *unit = NULL, *quantity = NULL;
        double v = 0, lo = 0, hi = 0;
        int rc = mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity);
        struct ref r = { "-", "", CUSTOM & 0x80 ? (IN.c & 7) - 6 : 0, 0, 0 };
        factor(&r, &lo, &hi);
        VP_ASSERT(rc == 0 && v >= lo && v <= hi, "plain-text VIF: factor");
        same(unit, "-", 3, "unit");
        same(quantity, vib.custom_vif, 10, "quantity");
        vp_free(unit); vp_free(quantity);
        VP_ASSERT(vp_live == 0, "nothing else is allocated");
        /* extension tables need an extension */
        vib.vif = CUSTOM & 0x80 ? 0xFD : 0xFB; vib.nvife = 0;
        unit = quantity = NULL;
        VP_ASSERT(mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity) < 0, "missing extension");
        VP_ASSERT(mbus_vib_unit_normalize(NULL, 1.0, &unit, &v, &quantity) < 0 && mbus_vib_unit_normalize(&vib, 1.0, NULL, &v, &quantity) < 0 &&
                  mbus_vib_unit_normalize(&vib, 1.0, &unit, NULL, &quantity) < 0 && mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, NULL) < 0, "missing arguments");
        VP_ASSERT(mbus_vif_unit_normalize(4, 1.0, NULL, &v, &quantity) < 0 && mbus_vif_unit_normalize(4, 1.0, &unit, NULL, &quantity) < 0 && mbus_vif_unit_normalize(4, 1.0, &unit, &v, NULL) < 0, "missing arguments");
        vp_free(unit); vp_free(quantity);
        VP_REACH("custom");
    }
#endif
#ifdef FIXN
    {
        struct ref r = ref_fixed(c);
        u8 d[4] = { 1, 0, 0, 0 };
        double lo = 0, hi = 0;
        mbus_record *rec = mbus_parse_fixed_record((char)(IN.a), (char)(c | (IN.ext & 0xC0)), d);
        if (r.bad) { VP_ASSERT(rec == NULL, "time units have no factor"); }
        else {
            VP_ASSERT(rec != NULL, "known code");
            factor(&r, &lo, &hi);
            VP_ASSERT(rec->is_numeric && rec->value.real_val >= lo && rec->value.real_val <= hi, "factor");
            same(rec->unit, r.unit, 40, "unit");
            same(rec->quantity, r.quantity, 40, "quantity");
            VP_ASSERT(rec->device == -1 && rec->tariff == -1 && rec->storage_number == 0, "fixed data has no device, tariff, storage number");
            VP_REACH("known");
        }
        mbus_record_free(rec);
        VP_ASSERT(vp_live == 0, "every block is released");
    }
#endif
#ifdef FIXV
    {
#ifndef NB
#define NB 4
#endif
        u8 d[4] = { 0, 0, 0, 0 };
        for (int k = 0; k < NB; k++) d[k] = IN.d[k];
        mbus_record *rec = mbus_parse_fixed_record((char)STATUS, (char)(FIXV | (IN.ext & 0xC0)), d);
        int x;
        if ((STATUS & 0x80) == 0) {
            x = 0;
            for (int k = 3; k >= 0; k--) { int hn = d[k] >> 4, ln = d[k] & 15; VP_ASSUME(hn < 10 && ln < 10); x = x * 100 + hn * 10 + ln; }
        } else x = (int)(d[0] | (u32)d[1] << 8 | (u32)d[2] << 16 | (u32)d[3] << 24);
        VP_ASSERT(rec != NULL && rec->is_numeric, "known code");
        VP_ASSERT(rec->value.real_val == (double)x * SCALEF, "counter times factor");
        same(rec->function_medium, STATUS & 0x40 ? "Stored value" : "Actual value", 20, "function");
        mbus_record_free(rec);
        VP_ASSERT(vp_live == 0, "every block is released");
        VP_REACH("scaled");
    }
#endif
#if defined(TEXT) || defined(FIXT)
    for (int k = LO; k <= HI; k++) {
        if (c == k && !(IN.ext & 0x80)) text_of(k, 0);
        if (c == k && (IN.ext & 0x80)) text_of(k, 0x80);
    }
    VP_REACH("text");
#endif
#ifdef MEDIA
    {
        static const char *const media[0x1D] = { "Other", "Oil", "Electricity", "Gas", "Heat: Outlet", "Steam", "Warm water (30-90°C)", "Water", "Heat Cost Allocator", "Compressed Air", "Cooling load meter: Outlet",
            "Cooling load meter: Inlet", "Heat: Inlet", "Heat / Cooling load meter", "Bus/System", "Unknown Medium", "Irrigation Water", "Water Logger", "Gas Logger", "Gas Converter", "Calorific value", "Hot water (>90°C)",
            "Cold water", "Dual water", "Pressure", "A/D Converter", "Smoke Detector", "Ambient Sensor", "Gas Detector" };
        const char *w = c < 0x1D ? media[c] : c == 0x20 ? "Breaker: Electricity" : c == 0x21 ? "Valve: Gas or Water" : c == 0x25 ? "Customer Unit: Display Device" : c == 0x28 ? "Waste Water" : c == 0x29 ? "Garbage" :
            c == 0x30 ? "Service Unit" : c == 0x36 ? "Radio Converter: System" : c == 0x37 ? "Radio Converter: Meter" : c >= 0x22 && c < 0x40 && c != 0x35 ? "Reserved" : NULL;
        const char *text = mbus_data_variable_medium_lookup(c);
        if (w) same(text, w, 40, "medium");
        int end = 0;
        for (int i = 0; i < 40; i++) if (!end && !text[i]) end = 1;
        VP_ASSERT(end, "terminated");
        VP_REACH("medium");
    }
#endif
#ifdef FIXM
    {
        static const char *const media[16] = { "Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved" };
        mbus_data_fixed d;
        memset(&d, 0, sizeof d);
        d.cnt1_type = IN.a; d.cnt2_type = IN.b;
        same(mbus_data_fixed_medium(&d), media[(IN.a >> 6) | (IN.b >> 6) << 2], 20, "medium");
        VP_REACH("medium");
    }
#endif
#ifdef ERRS
    {
        static const char *const errs[10] = { "Unspecified error", "Unimplemented CI-Field", "Buffer too long, truncated", "Too many records", "Premature end of record", "More than 10 DIFE´s", "More than 10 VIFE´s", "Reserved", "Application busy", "Too many readouts" };
        const char *text = mbus_data_error_lookup(c);
        if (c < 10) same(text, errs[c], 40, "error");
        int end = 0;
        for (int i = 0; i < 40; i++) if (!end && !text[i]) end = 1;
        VP_ASSERT(end, "terminated");
        VP_REACH("error text");
    }
#endif
#ifdef PRODUCT
    {
        mbus_data_variable_header h;
        memset(&h, 0, sizeof h);
        h.manufacturer[0] = IN.a; h.manufacturer[1] = IN.b; h.version = c; h.medium = IN.k;
        const char *text = mbus_data_product_name(&h);
        int end = 0;
        for (int i = 0; i < 40; i++) if (!end && !text[i]) end = 1;
        VP_ASSERT(end, "terminated");
        VP_REACH("product");
    }
#endif
    return 0;
}

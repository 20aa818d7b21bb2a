// An analysis (see /repo/analytics/README.md) that writes down everything it is shown.
#include <stdlib.h>
#include <stdio.h>
#include <string>
#include "mws/analytics/analytics.hpp"

static FILE* out;
static long stop = -1, shown = 0;

static void text(const std::string& s) {
    fputc('"', out);
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
        else if (c < 32) fprintf(out, "\\u%04x", c);
        else fputc(c, out);
    }
    fputc('"', out);
}

static void term(const mws::types::CmmlToken* t) {
    fprintf(out, "{\"t\":");
    text(t->getTag());
    fprintf(out, ",\"a\":{},\"x\":");
    text(t->getTextContent());
    fprintf(out, ",\"k\":[");
    bool first = true;
    for (auto c : t->getChildNodes()) {
        if (!first) fputc(',', out);
        first = false;
        term(c);
    }
    fprintf(out, "]}");
}

namespace mws {
namespace analytics {

AnalyticsStatus analyze_begin(const index_handle_t* index, const inode_t* root) {
    (void)index;
    out = fopen(getenv("DUMP_OUT"), "w");
    if (out == NULL) abort();
    if (getenv("DUMP_STOP")) stop = atol(getenv("DUMP_STOP"));
    fprintf(out, "{\"roots\":%lu}\n", (unsigned long)root->size);
    fflush(out);
    if (stop == 0) { fflush(out); return ANALYTICS_STOP; }
    return ANALYTICS_OK;
}

AnalyticsStatus analyze_expression(const types::CmmlToken* t, uint32_t num_hits) {
    fprintf(out, "{\"h\":%lu,\"d\":%lu,\"z\":%lu,\"t\":", (unsigned long)num_hits,
            (unsigned long)t->getExprDepth(), (unsigned long)t->getExprSize());
    term(t);
    fprintf(out, "}\n");
    fflush(out);
    shown++;
    return shown == stop ? ANALYTICS_STOP : ANALYTICS_OK;
}

void analyze_end() {
    fprintf(out, "{\"ended\":1}\n");
    fclose(out);
    out = NULL;
}

}  // namespace analytics
}  // namespace mws

// A client of the library as the header describes it: everything goes through scc_load_api and the types of scc.h.
#define _WIN32 1
#include "scc.h"

struct Text { const char *str; size_t len; };
extern "C" {
typedef void Report(void *ctx, unsigned kind, bool native, Text name, Text parent, Text path, size_t line);

static Text text(StrWithLen s) { Text t = {s.str, s.len}; return t; }

static unsigned kind_of(unsigned k) {
    switch (k) {
    case SCC_SOURCE_REF_TYPE_CLASS: return 1;
    case SCC_SOURCE_REF_TYPE_FIELD: return 2;
    case SCC_SOURCE_REF_TYPE_FUNCTION: return 3;
    case SCC_SOURCE_REF_TYPE_ENUM: return 4;
    case SCC_SOURCE_REF_TYPE_UNDEFINED: return 0;
    default: return 99;
    }
}

// empty strings: leave the setting alone
SccResult *client_compile(const char *r6, const char *cache, const char *out, const char *scripts) {
    SccApi api = scc_load_api(0);
    SccSettings *s = api.settings_new(r6);
    if (*cache) api.settings_set_custom_cache_file(s, cache);
    if (*out) api.settings_set_output_cache_file(s, out);
    if (*scripts) api.settings_add_script_path(s, scripts);
    return api.compile(s);
}
bool client_report(SccResult *r, void *ctx, Report *report) {
    SccApi api = scc_load_api(0);
    SccOutput *o = api.get_success(r);
    if (!o) return false;
    size_t n = api.output_source_ref_count(o);
    for (size_t i = 0; i < n; i++) {
        SccSourceRef *f = api.output_get_source_ref(o, i);
        report(ctx, kind_of(api.source_ref_type(o, f)), api.source_ref_is_native(o, f), text(api.source_ref_name(o, f)),
               text(api.source_ref_parent_name(o, f)), text(api.source_ref_path(o, f)), api.source_ref_line(o, f));
    }
    return true;
}
size_t client_error(SccResult *r, char *buffer, size_t size) { return scc_load_api(0).copy_error(r, buffer, size); }
void client_free(SccResult *r) { scc_load_api(0).free_result(r); }
}

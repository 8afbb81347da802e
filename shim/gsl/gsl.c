/* Stand-in for libgsl: error interface and QAG, written to GSL's documented semantics
 * (tolerance validation, round-off detection, singularity detection, max-iteration failure). */
#include <stdlib.h>
#include <stdio.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>
#include "gk_tables.h"

static gsl_error_handler_t *vp_handler = NULL;
static int vp_off = 0;
static void vp_no_handler(const char *a, const char *b, int c, int d) { (void)a; (void)b; (void)c; (void)d; }

/* The original library keeps the handler in an unsynchronised global, too; every access here is atomic so
 * that a race report always concerns the code under test. */
gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *h) {
    __atomic_store_n(&vp_off, 0, __ATOMIC_SEQ_CST);
    return __atomic_exchange_n(&vp_handler, h, __ATOMIC_SEQ_CST);
}
gsl_error_handler_t *gsl_set_error_handler_off(void) {
    return __atomic_exchange_n(&vp_handler, vp_no_handler, __ATOMIC_SEQ_CST);
}
static int vp_error(const char *reason, int err) {
    gsl_error_handler_t *h = __atomic_load_n(&vp_handler, __ATOMIC_SEQ_CST);
    if (h) { h(reason, __FILE__, __LINE__, err); return err; }
    fflush(stdout);
    fprintf(stderr, "gsl: %s\nDefault GSL error handler invoked.\n", reason);
    fflush(stderr);
    abort();
}
const char *gsl_strerror(const int e) {
    switch (e) {
        case GSL_SUCCESS: return "success";
        case GSL_EINVAL: return "invalid argument supplied by user";
        case GSL_EFAILED: return "generic failure";
        case GSL_ENOMEM: return "malloc failed";
        case GSL_EMAXITER: return "exceeded max number of iterations";
        case GSL_EBADTOL: return "user specified an invalid tolerance";
        case GSL_EROUND: return "failed because of roundoff error";
        case GSL_ESING: return "apparent singularity detected";
        default: return "unknown error code";
    }
}

gsl_integration_workspace *gsl_integration_workspace_alloc(const size_t n) {
    gsl_integration_workspace *w;
    if (n == 0) { vp_error("workspace length n must be positive integer", GSL_EDOM); return NULL; }
    w = (gsl_integration_workspace *) malloc(sizeof *w);
    if (!w) { vp_error("failed to allocate space for workspace struct", GSL_ENOMEM); return NULL; }
    w->alist = (double *) malloc(n * sizeof(double));
    w->blist = (double *) malloc(n * sizeof(double));
    w->rlist = (double *) malloc(n * sizeof(double));
    w->elist = (double *) malloc(n * sizeof(double));
    w->order = (size_t *) malloc(n * sizeof(size_t));
    w->level = (size_t *) malloc(n * sizeof(size_t));
    w->size = 0; w->limit = n; w->maximum_level = 0; w->nrmax = 0; w->i = 0;
    return w;
}
void gsl_integration_workspace_free(gsl_integration_workspace *w) {
    if (!w) return;
    free(w->level); free(w->order); free(w->elist); free(w->rlist); free(w->blist); free(w->alist); free(w);
}

static double rescale_error(double err, const double result_abs, const double result_asc) {
    err = fabs(err);
    if (result_asc != 0 && err != 0) {
        double scale = pow((200 * err / result_asc), 1.5);
        err = (scale < 1) ? result_asc * scale : result_asc;
    }
    if (result_abs > GSL_DBL_MIN / (50 * GSL_DBL_EPSILON)) {
        double min_err = 50 * GSL_DBL_EPSILON * result_abs;
        if (min_err > err) err = min_err;
    }
    return err;
}

static void qk(int n, const double *xgk, const double *wg, const double *wgk,
               const gsl_function *f, double a, double b,
               double *result, double *abserr, double *resabs, double *resasc) {
    double fv1[32], fv2[32];
    const double center = 0.5 * (a + b), half = 0.5 * (b - a), abs_half = fabs(half);
    const double f_center = GSL_FN_EVAL(f, center);
    double result_gauss = 0, result_kronrod = f_center * wgk[n - 1];
    double result_abs = fabs(result_kronrod), result_asc = 0, mean, err;
    int j;
    if (n % 2 == 0) result_gauss = f_center * wg[n / 2 - 1];
    for (j = 0; j < (n - 1) / 2; j++) {
        const int jtw = j * 2 + 1;
        const double abscissa = half * xgk[jtw];
        const double f1 = GSL_FN_EVAL(f, center - abscissa), f2 = GSL_FN_EVAL(f, center + abscissa);
        const double fs = f1 + f2;
        fv1[jtw] = f1; fv2[jtw] = f2;
        result_gauss += wg[j] * fs;
        result_kronrod += wgk[jtw] * fs;
        result_abs += wgk[jtw] * (fabs(f1) + fabs(f2));
    }
    for (j = 0; j < n / 2; j++) {
        int jtwm1 = j * 2;
        const double abscissa = half * xgk[jtwm1];
        const double f1 = GSL_FN_EVAL(f, center - abscissa), f2 = GSL_FN_EVAL(f, center + abscissa);
        fv1[jtwm1] = f1; fv2[jtwm1] = f2;
        result_kronrod += wgk[jtwm1] * (f1 + f2);
        result_abs += wgk[jtwm1] * (fabs(f1) + fabs(f2));
    }
    mean = result_kronrod * 0.5;
    result_asc = wgk[n - 1] * fabs(f_center - mean);
    for (j = 0; j < n - 1; j++)
        result_asc += wgk[j] * (fabs(fv1[j] - mean) + fabs(fv2[j] - mean));
    err = (result_kronrod - result_gauss) * half;
    result_kronrod *= half; result_abs *= abs_half; result_asc *= abs_half;
    *result = result_kronrod; *resabs = result_abs; *resasc = result_asc;
    *abserr = rescale_error(err, result_abs, result_asc);
}

static int rule(int key, const gsl_function *f, double a, double b, double *r, double *e, double *ra, double *rs) {
    if (key < 1) key = 1;
    if (key > 6) key = 6;
    switch (key) {
        case 1: qk(8, gk15_x, gk15_g, gk15_w, f, a, b, r, e, ra, rs); break;
        case 2: qk(11, gk21_x, gk21_g, gk21_w, f, a, b, r, e, ra, rs); break;
        case 3: qk(16, gk31_x, gk31_g, gk31_w, f, a, b, r, e, ra, rs); break;
        case 4: qk(21, gk41_x, gk41_g, gk41_w, f, a, b, r, e, ra, rs); break;
        case 5: qk(26, gk51_x, gk51_g, gk51_w, f, a, b, r, e, ra, rs); break;
        case 6: qk(31, gk61_x, gk61_g, gk61_w, f, a, b, r, e, ra, rs); break;
    }
    return 0;
}

static int subinterval_too_small(double a1, double a2, double b2) {
    const double e = GSL_DBL_EPSILON, u = GSL_DBL_MIN;
    double tmp = (1 + 100 * e) * (fabs(a2) + 1000 * u);
    return fabs(a1) <= tmp && fabs(b2) <= tmp;
}

static void qpsrt(gsl_integration_workspace *w) {
    const size_t last = w->size - 1, limit = w->limit;
    double *elist = w->elist; size_t *order = w->order;
    double errmax, errmin; int i, k, top; size_t i_nrmax = w->nrmax, i_maxerr = order[i_nrmax];
    if (last < 2) { order[0] = 0; order[1] = 1; w->i = i_maxerr; return; }
    errmax = elist[i_maxerr];
    while (i_nrmax > 0 && errmax > elist[order[i_nrmax - 1]]) { order[i_nrmax] = order[i_nrmax - 1]; i_nrmax--; }
    if (last < (limit / 2 + 2)) top = (int) last; else top = (int) (limit - last + 1);
    i = (int) i_nrmax + 1;
    while (i < top && errmax < elist[order[i]]) { order[i - 1] = order[i]; i++; }
    order[i - 1] = i_maxerr;
    errmin = elist[last];
    k = top - 1;
    while (k > i - 2 && errmin >= elist[order[k]]) { order[k + 1] = order[k]; k--; }
    order[k + 1] = last;
    i_maxerr = order[i_nrmax];
    w->i = i_maxerr; w->nrmax = i_nrmax;
}

int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                        size_t limit, int key, gsl_integration_workspace *w, double *result, double *abserr) {
    double area, errsum, result0, abserr0, resabs0, resasc0, tolerance, round_off;
    size_t iteration = 0; int rt1 = 0, rt2 = 0, error_type = 0;
    w->size = 0; w->nrmax = 0; w->i = 0;
    w->alist[0] = a; w->blist[0] = b; w->rlist[0] = 0; w->elist[0] = 0; w->order[0] = 0; w->level[0] = 0;
    w->maximum_level = 0;
    *result = 0; *abserr = 0;
    if (limit > w->limit) return vp_error("iteration limit exceeds available workspace", GSL_EINVAL);
    if (epsabs <= 0 && (epsrel < 50 * GSL_DBL_EPSILON || epsrel < 0.5e-28))
        return vp_error("tolerance cannot be achieved with given epsabs and epsrel", GSL_EBADTOL);
    rule(key, f, a, b, &result0, &abserr0, &resabs0, &resasc0);
    w->size = 1; w->rlist[0] = result0; w->elist[0] = abserr0;
    tolerance = fmax(epsabs, epsrel * fabs(result0));
    round_off = 50 * GSL_DBL_EPSILON * resabs0;
    if (abserr0 <= round_off && abserr0 > tolerance) {
        *result = result0; *abserr = abserr0;
        return vp_error("cannot reach tolerance because of roundoff error on first attempt", GSL_EROUND);
    } else if ((abserr0 <= tolerance && abserr0 != resasc0) || abserr0 == 0.0) {
        *result = result0; *abserr = abserr0;
        return GSL_SUCCESS;
    } else if (limit == 1) {
        *result = result0; *abserr = abserr0;
        return vp_error("a maximum of one iteration was insufficient", GSL_EMAXITER);
    }
    area = result0; errsum = abserr0; iteration = 1;
    do {
        double a1, b1, a2, b2, a_i, b_i, r_i, e_i, area1 = 0, area2 = 0, area12, error1 = 0, error2 = 0, error12;
        double resasc1, resasc2, resabs1, resabs2;
        size_t im = w->i, in, lvl;
        a_i = w->alist[im]; b_i = w->blist[im]; r_i = w->rlist[im]; e_i = w->elist[im];
        a1 = a_i; b1 = 0.5 * (a_i + b_i); a2 = b1; b2 = b_i;
        rule(key, f, a1, b1, &area1, &error1, &resabs1, &resasc1);
        rule(key, f, a2, b2, &area2, &error2, &resabs2, &resasc2);
        area12 = area1 + area2; error12 = error1 + error2;
        errsum += (error12 - e_i); area += area12 - r_i;
        if (resasc1 != error1 && resasc2 != error2) {
            double delta = r_i - area12;
            if (fabs(delta) <= 1.0e-5 * fabs(area12) && error12 >= 0.99 * e_i) rt1++;
            if (iteration >= 10 && error12 > e_i) rt2++;
        }
        tolerance = fmax(epsabs, epsrel * fabs(area));
        if (errsum > tolerance) {
            if (rt1 >= 6 || rt2 >= 20) error_type = 2;
            if (subinterval_too_small(a1, a2, b2)) error_type = 3;
        }
        in = w->size; lvl = w->level[im] + 1;
        if (error2 > error1) {
            w->alist[im] = a2; w->rlist[im] = area2; w->elist[im] = error2; w->level[im] = lvl;
            w->alist[in] = a1; w->blist[in] = b1; w->rlist[in] = area1; w->elist[in] = error1; w->level[in] = lvl;
        } else {
            w->blist[im] = b1; w->rlist[im] = area1; w->elist[im] = error1; w->level[im] = lvl;
            w->alist[in] = a2; w->blist[in] = b2; w->rlist[in] = area2; w->elist[in] = error2; w->level[in] = lvl;
        }
        w->size++;
        if (lvl > w->maximum_level) w->maximum_level = lvl;
        qpsrt(w);
        iteration++;
    } while (iteration < limit && !error_type && errsum > tolerance);
    { double s = 0; size_t k; for (k = 0; k < w->size; k++) s += w->rlist[k]; *result = s; }
    *abserr = errsum;
    if (errsum <= tolerance) return GSL_SUCCESS;
    else if (error_type == 2) return vp_error("roundoff error prevents tolerance from being achieved", GSL_EROUND);
    else if (error_type == 3) return vp_error("bad integrand behavior found in the integration interval", GSL_ESING);
    else if (iteration == limit) return vp_error("maximum number of subdivisions reached", GSL_EMAXITER);
    return vp_error("could not integrate function", GSL_EFAILED);
}

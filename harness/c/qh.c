/* The hull library's own view of its structures, for comparison. */
#include "libqhull_r/qhull_ra.h"
double qhh_distplane(qhT *qh, double *p, facetT *f) {
    realT d = 0;
    qh_distplane(qh, p, f, &d);
    return d;
}
void qhh_lift(qhT *qh, int dim, double *p) { qh_setdelaunay(qh, dim, 1, p); }
double qhh_last(qhT *qh, int k) { return k == 0 ? qh->last_low : k == 1 ? qh->last_high : qh->last_newhigh; }
int qhh_facet_count(qhT *qh, int lower) {
    facetT *facet;
    int n = 0;
    FORALLfacets
        if (!lower || !facet->upperdelaunay) n++;
    return n;
}
int qhh_vertex_count(qhT *qh) {
    vertexT *vertex;
    int n = 0;
    FORALLvertices n++;
    return n;
}

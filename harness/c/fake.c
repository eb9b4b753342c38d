/* Hull library structures with chosen contents, built with the library's own declarations. */
#include "libqhull_r/qhull_ra.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
/* flags: bit 0 is upperdelaunay, the others every other mark of a facet */
facetT *qhf_facet(unsigned id, unsigned flags, double offset, double *normal, double *center) {
    facetT *f = calloc(1, sizeof *f);
    f->id = id; f->offset = offset; f->normal = normal; f->center = center;
    f->upperdelaunay = flags & 1;
    f->tricoplanar = flags >> 1; f->newfacet = flags >> 2; f->visible = flags >> 3; f->toporient = flags >> 4; f->simplicial = flags >> 5;
    f->seen = flags >> 6; f->seen2 = flags >> 7; f->flipped = flags >> 8; f->notfurthest = flags >> 9; f->good = flags >> 10;
    f->isarea = flags >> 11; f->dupridge = flags >> 12; f->mergeridge = flags >> 13; f->mergeridge2 = flags >> 14; f->coplanarhorizon = flags >> 15;
    f->mergehorizon = flags >> 16; f->cycledone = flags >> 17; f->tested = flags >> 18; f->keepcentrum = flags >> 19; f->newmerge = flags >> 20;
    f->degenerate = flags >> 21; f->redundant = flags >> 22;
    f->visitid = id * 7 + 1; f->nummerge = 3;
#if !qh_COMPUTEfurthest
    f->furthestdist = -7.0;
#endif
    f->maxoutside = 9.0;
    return f;
}
vertexT *qhf_vertex(unsigned id, double *point) {
    vertexT *v = calloc(1, sizeof *v);
    v->id = id; v->point = point; v->visitid = id * 5 + 3;
    return v;
}
setT *qhf_set(int n, int spare, void **elems) {
    setT *s = calloc(1, sizeof(setT) + (n + spare) * SETelemsize);
    s->maxsize = n + spare;
    for (int i = 0; i < n; i++) s->e[i].p = elems[i];
    s->e[s->maxsize].i = spare ? n + 1 : 0;
    if (spare) s->e[n].p = NULL;
    return s;
}
void qhf_facet_sets(facetT *f, setT *vertices, setT *neighbors, setT *ridges) { f->vertices = vertices; f->neighbors = neighbors; f->ridges = ridges; }
void qhf_vertex_sets(vertexT *v, setT *neighbors) { v->neighbors = neighbors; }
void qhf_facet_link(facetT *f, facetT *prev, facetT *next) { f->previous = prev; f->next = next; }
void qhf_vertex_link(vertexT *v, vertexT *prev, vertexT *next) { v->previous = prev; v->next = next; }
qhT *qhf_qh(int dim, facetT *facets, vertexT *vertices) {
    qhT *qh = calloc(1, sizeof *qh);
    qh->hull_dim = dim; qh->facet_list = facets; qh->vertex_list = vertices; qh->num_facets = 12345; qh->num_vertices = 54321;
    return qh;
}

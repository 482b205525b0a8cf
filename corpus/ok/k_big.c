struct Node { struct Node *left, *right; int key; void *value; };
struct Tree { struct Node *root; unsigned long size; int (*cmp)(int, int); };
void *malloc(unsigned long); void free(void *);
static struct Node *mk(int k, void *v) { struct Node *n = malloc(sizeof(struct Node)); if (!n) return 0; *n = (struct Node){.key = k, .value = v}; return n; }
int insert(struct Tree *t, int k, void *v) {
    struct Node **p = &t->root;
    while (*p) { int c = t->cmp ? t->cmp(k, (*p)->key) : k - (*p)->key; if (c == 0) { (*p)->value = v; return 0; } p = c < 0 ? &(*p)->left : &(*p)->right; }
    if (!(*p = mk(k, v))) return -1;
    t->size++; return 1;
}
void *find(const struct Tree *t, int k) { for (const struct Node *n = t->root; n; n = k < n->key ? n->left : n->right) if (n->key == k) return n->value; return (void *) 0; }
static void fr(struct Node *n) { if (n) { fr(n->left); fr(n->right); free(n); } }
void clear(struct Tree *t) { fr(t->root); t->root = 0; t->size = 0; }

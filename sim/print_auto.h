/* printing with one default serialization method: included once per method with PA_METHOD and PA_NAME defined */
#undef MR_PRINT_SERIALIZATION_METHOD
#define MR_PRINT_SERIALIZATION_METHOD PA_METHOD
#define PA_P2(a, b) a##b
#define PA_P(a, b) PA_P2 (a, b)
#define PA_SAVE PA_P (MR_SAVE_, PA_METHOD)
/* a pointer or an array: its address, its type where the method is C initializers, its contents */
#define PA_PTR(T, P, N)								\
  el_add (l, hfmt (PA_TYPED ? "%p (%s%s)%s" : "%p %4$s", (void*)(P), #T, N, take (PA_SAVE (T, P), true)), hfmt ("%p", (void*)(P)), NULL)
#define PA_ADDR(P) el_add (l, hfmt ("%p", (void*)(P)), NULL, NULL)
#define PA_TEXT(S) el_add (l, (S), NULL, NULL)

static void
PA_P (expect_, PA_NAME) (line_t *l, int shape, pa_t *a)
{
  switch (shape)
    {
    case 0:
      PA_TEXT ("struct ");
      PA_PTR (sv_point_t, &a->pt, "");
      PA_TEXT (" node ");
      PA_PTR (sv_node_t, &a->node, "");
      PA_TEXT ("(null)");
      break;
    case 1:
      PA_PTR (sv_node_t, a->pnode, "");
      PA_TEXT ("\n");
      PA_PTR (sv_point_t, a->ppt, "");
      PA_PTR (sv_scalars_t, a->psc, "");
      break;
    case 2:
      PA_PTR (sv_point_t, a->pts, "[]");
      PA_TEXT ("|");
      PA_PTR (sv_node_t, a->nodes, "[]");
      PA_TEXT (a->word);
      break;
    case 3:
      PA_TEXT (pa_enum (a->col, pa_color));
      PA_TEXT (pa_enum (a->e8, pa_e8));
      PA_TEXT (pa_enum (a->sm, pa_small));
      PA_TEXT (pa_enum (a->e16, pa_e16));
      PA_TEXT (a->eu16 == SV_EU16_A ? "SV_EU16_A" : a->eu16 == SV_EU16_B ? "SV_EU16_B" : hfmt ("%u", (unsigned)a->eu16));
      PA_TEXT (pa_enum (a->e64, pa_e64));
      PA_TEXT (a->eu64 == SV_EU64_A ? "SV_EU64_A" : a->eu64 == SV_EU64_B ? "SV_EU64_B" : a->eu64 == SV_EU64_C ? "SV_EU64_C" : hfmt ("%" PRIu64, (uint64_t)a->eu64));
      break;
    case 4:
      PA_TEXT ("? ");
      PA_ADDR (a->pv);
      PA_ADDR (a->pp);
      PA_PTR (sv_point_t, &a->pt, "");
      break;
    case 5:
      PA_PTR (int32_t, a->ints, "[]");
      PA_PTR (int64_t, &a->i64, "");
      PA_PTR (string_t, &a->str, "");
      PA_PTR (double, &a->d, "");
      PA_PTR (_Bool, &a->b, "");
      PA_PTR (string_t, a->strs, "[]");
      el_add (l, take (PA_SAVE (sv_scalars_t, a->psc), false), "", NULL);
      break;
    case 6:
      el_add (l, take (PA_SAVE (sv_point_t, a->ppt), false), "", NULL);
      PA_PTR (sv_val_t, &a->un, "");
      PA_TEXT (a->b ? "true" : "false");
      break;
    case 7:
      PA_PTR (complex_double_t, &a->cd, "");
      PA_PTR (mr_uint128_t, &a->u128, "");
      PA_PTR (uint8_t, a->bytes, "[]");
      PA_TEXT ("\n");
      break;
    }
}

static int
PA_P (print_, PA_NAME) (FILE *f, int shape, pa_t *a)
{
  switch (shape)
    {
    case 0: return MR_FPRINT (f, "struct ", &a->pt, " node ", &a->node, a->nul);
    case 1: return MR_FPRINT (f, a->pnode, "\n", a->ppt, a->psc);
    case 2: return MR_FPRINT (f, a->pts, "|", a->nodes, a->word);
    case 3: return MR_FPRINT (f, a->col, a->e8, a->sm, a->e16, a->eu16, a->e64, a->eu64);
    case 4: return MR_FPRINT (f, "? ", a->pv, a->pp, (&a->pt));
    case 5: return MR_FPRINT (f, a->ints, &a->i64, &a->str, &a->d, &a->b, a->strs, (sv_scalars_t, a->psc));
    case 6: return MR_FPRINT (f, (sv_point_t, a->ppt), &a->un, a->b);
    case 7: return MR_FPRINT (f, &a->cd, &a->u128, a->bytes, "\n");
    }
  return 0;
}
#undef PA_METHOD
#undef PA_NAME
#undef PA_TYPED

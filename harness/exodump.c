/* Prints an ExodusII file as plain text, values as hexadecimal-exact %.17g. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <exodusII.h>
int main(int argc, char** argv)
{
  int a, i, j, t;
  ex_opts(0);
  for(a=1; a<argc; ++a){
    int cpu=8, io=0, nd, nn, ne, nb, ns, nss;
    float ver;
    char title[MAX_LINE_LENGTH+1];
    int f = ex_open(argv[a], EX_READ, &cpu, &io, &ver);
    if(f < 0){ printf("OPENFAIL %s\n", argv[a]); continue; }
    printf("FILE %s\n", argv[a]);
    if(ex_get_init(f,title,&nd,&nn,&ne,&nb,&ns,&nss) < 0){ printf("INITFAIL\n"); ex_close(f); continue; }
    printf("SIZES %d %d %d %d %d %d\n", nd, nn, ne, nb, ns, nss);
    double *x=malloc(8*(nn+1)), *y=malloc(8*(nn+1)), *z=malloc(8*(nn+1));
    int *map=malloc(4*(nn+1)), *emap=malloc(4*(ne+1));
    int *bid=malloc(4*(nb+1)), *bn=malloc(4*(nb+1));
    if(nn){ ex_get_coord(f,x,y,z); ex_get_node_num_map(f,map); ex_get_elem_num_map(f,emap); }
    for(i=0;i<nn;++i) printf("NODE %d %.17g %.17g %.17g\n", map[i], x[i], y[i], z[i]);
    ex_get_elem_blk_ids(f,bid);
    int off=0;
    for(i=0;i<nb;++i){
      char type[MAX_STR_LENGTH+1], name[MAX_STR_LENGTH+1]; int npe=0, na=0; type[0]=name[0]=0; bn[i]=0;
      ex_get_elem_block(f,bid[i],type,&bn[i],&npe,&na);
      ex_get_name(f,EX_ELEM_BLOCK,bid[i],name);
      printf("BLOCK %d %d %s\n", bid[i], bn[i], name);
      if(bn[i]*npe>0){
        int *con=malloc(4*bn[i]*npe);
        ex_get_elem_conn(f,bid[i],con);
        for(j=0;j<bn[i];++j) printf("ELEM %d %d %d\n", bid[i], emap[off+j], map[con[j*npe]-1]);
        free(con);
      }
      off += bn[i];
    }
    if(ns>0){
      int *sid=malloc(4*ns);
      ex_get_node_set_ids(f,sid);
      for(i=0;i<ns;++i){
        int n,nd2; char name[MAX_STR_LENGTH+1]; name[0]=0;
        ex_get_node_set_param(f,sid[i],&n,&nd2);
        ex_get_name(f,EX_NODE_SET,sid[i],name);
        printf("NSET %d %s :", sid[i], name);
        if(n){ int *l=malloc(4*n); ex_get_node_set(f,sid[i],l); for(j=0;j<n;++j) printf(" %d", (l[j]>=1&&l[j]<=nn)?map[l[j]-1]:-l[j]); free(l);} 
        printf("\n");
      }
    }
    int nt=0; float fd; char cd;
    ex_inquire(f,EX_INQ_TIME,&nt,&fd,&cd);
    const char* kinds="gne";
    for(int k=0;k<3;++k){
      int nv=0; char kk[2]={kinds[k],0};
      ex_get_var_param(f,kk,&nv);
      if(nv<=0) continue;
      char **nm=malloc(sizeof(char*)*nv);
      for(i=0;i<nv;++i) nm[i]=calloc(1,MAX_STR_LENGTH+1);
      ex_get_var_names(f,kk,nv,nm);
      for(t=1;t<=nt;++t){
        if(k==0){
          double *v=malloc(8*nv); ex_get_glob_vars(f,t,nv,v);
          for(i=0;i<nv;++i) printf("G %d %s %.17g\n", t, nm[i], v[i]);
          free(v);
        } else if(k==1 && nn){
          double *v=malloc(8*nn);
          for(i=0;i<nv;++i){ if(ex_get_nodal_var(f,t,i+1,nn,v)<0) continue;
            printf("N %d %s", t, nm[i]); for(j=0;j<nn;++j) printf(" %.17g", v[j]); printf("\n"); }
          free(v);
        } else if(k==2){
          for(i=0;i<nv;++i) for(j=0;j<nb;++j){ if(!bn[j]) continue;
            double *v=malloc(8*bn[j]);
            if(ex_get_elem_var(f,t,i+1,bid[j],bn[j],v)>=0){
              printf("E %d %s %d", t, nm[i], bid[j]); for(int q=0;q<bn[j];++q) printf(" %.17g", v[q]); printf("\n"); }
            free(v); }
        }
      }
    }
    for(t=1;t<=nt;++t){ double tm; ex_get_time(f,t,&tm); printf("T %d %.17g\n", t, tm); }
    ex_close(f);
  }
  printf("END\n");
  return 0;
}

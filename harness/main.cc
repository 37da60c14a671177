int explore_main(int,char**); int main(int c,char**v){ return explore_main(c,v); }

int h(enum E3 { E3A = ({ 4; }) } e);

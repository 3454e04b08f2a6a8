#ifndef IMU_CTYPE_H
#define IMU_CTYPE_H
int isalpha(int);
int isupper(int);
int islower(int);
int isdigit(int);
int isspace(int);
int toupper(int);
int tolower(int);
#endif

export enum Enum {
  A = 'A',
  B = 'B',
}
